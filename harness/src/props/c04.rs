//! C04: histories of edits of a B-spline curve.
use crate::rec::*;
use crate::Case;
use geom3d::curve::*;
use geom3d::*;

fn rep(c: &BSplineCurve<Point3>) -> String {
    format!("{{\"t\":{},\"ps\":{},\"p\":{}}}", fs(&c.knots.0), v3s(&c.control_points), c.degree)
}

fn mult(t: &[f64], u: f64) -> usize {
    t.iter().filter(|x| **x == u).count()
}

/// an interior parameter, on a knot or well away from every knot
fn interior(c: &mut Case, t: &[f64]) -> Option<f64> {
    let (a, b) = (t[0], t[t.len() - 1]);
    for _ in 0..20 {
        let u = match c.rng.below(3) {
            0 => t[c.rng.below(t.len())],
            1 => a + (b - a) * c.rng.int(1, 63) as f64 / 64.0,
            _ => c.rng.range(a, b),
        };
        if u > a && u < b && t.iter().all(|k| *k == u || (k - u).abs() > (b - a) * 1e-3) {
            return Some(u);
        }
    }
    None
}

pub fn run(c: &mut Case) {
    let (p, t, script);
    if let Some(s) = c.scn.clone() {
        // MCEdit: degree, number of knots, knots, then pairs (operation, twice the parameter)
        p = s[0] as usize;
        let m = s[1] as usize;
        t = s[2..2 + m].iter().map(|x| *x as f64).collect::<Vec<_>>();
        script = Some(s[2 + m..].to_vec());
    } else {
        p = if c.rng.chance(1, 10) { c.rng.int(6, 8) } else { c.rng.int(1, 5) } as usize;
        let n = p + 1 + if c.rng.chance(1, 10) { c.rng.below(15) } else { c.rng.below(6) };
        let clamped = c.rng.chance(1, 2);
        // the library's tolerance for splitting at knots is absolute, so only in large units
        let unit = if c.rng.chance(1, 8) { (2.0f64).powi(c.rng.int(4, 20) as i32) } else { 1.0 };
        t = c.rng.knots(p, n, clamped).into_iter().map(|x| x * unit).collect::<Vec<_>>();
        script = None;
    }
    let n = t.len() - p - 1;
    let ps = c.rng.d3s(n);
    c.ev(Ev::new("curve").n("p", p as i64).fs("t", &t).v3s("ps", &ps));
    let mut cur = BSplineCurve { control_points: ps, knots: KnotVector::new(t), degree: p as u8 };
    if let Some(script) = script {
        for pair in script.chunks(2) {
            let u = pair[1] as f64 / 2.0;
            let ok = match pair[0] {
                0 => insert(c, &mut cur, u),
                1 => clamp(c, &mut cur),
                2 => split(c, &mut cur, u, true),
                _ => split(c, &mut cur, u, false),
            };
            if !ok {
                return;
            }
        }
        bezier(c, &cur);
        return;
    }
    let steps = c.rng.int(1, if c.thorough { 7 } else { 4 });
    for _ in 0..steps {
        let t = cur.knots.0.clone();
        let ok = match c.rng.below(8) {
            0..=3 => {
                // insertion, at the ends as well while their multiplicity allows
                let u = if c.rng.chance(1, 6) { Some(c.rng.pick(&[t[0], t[t.len() - 1]])) } else { interior(c, &t) };
                match u {
                    Some(u) if mult(&t, u) <= p => insert(c, &mut cur, u),
                    _ => true,
                }
            }
            4 | 5 => match interior(c, &t) {
                Some(u) if mult(&t, u) <= p + 1 => {
                    let keep_a = c.rng.chance(1, 2);
                    split(c, &mut cur, u, keep_a)
                }
                _ => true,
            },
            6 => clamp(c, &mut cur),
            _ => {
                bezier(c, &cur);
                true
            }
        };
        if !ok {
            return;
        }
    }
    bezier(c, &cur);
}

fn insert(c: &mut Case, cur: &mut BSplineCurve<Point3>, u: f64) -> bool {
    let r = guard(|| cur.add_knot(u));
    let ok = r.is_ok();
    let e = Ev::new("insert").f("u", u).out(r, |e, _| e.raw("c", &rep(cur)));
    c.ev(e);
    ok
}

fn clamp(c: &mut Case, cur: &mut BSplineCurve<Point3>) -> bool {
    let r = guard(|| cur.clamp());
    let ok = r.is_ok();
    let e = Ev::new("clamp").out(r, |e, _| e.raw("c", &rep(cur)));
    c.ev(e);
    ok
}

fn split(c: &mut Case, cur: &mut BSplineCurve<Point3>, u: f64, keep_a: bool) -> bool {
    // a parameter within the tolerance above a knot is the knot
    let at_knot = cur.knots.iter().any(|k| *k == u);
    let at = if at_knot && c.rng.chance(1, 3) { u + c.rng.pick(&[1e-8, 5e-8, 9e-8, 1e-10]) } else { u };
    let r = guard(|| cur.split(at));
    let e = Ev::new("split").f("u", u).s("keep", if keep_a { "a" } else { "b" });
    match r {
        Ok(b) => {
            c.ev(e.raw("a", &rep(cur)).raw("b", &rep(&b)));
            if !keep_a {
                *cur = b;
            }
            true
        }
        Err(m) => {
            c.ev(e.s("panic", &m));
            false
        }
    }
}

fn bezier(c: &mut Case, cur: &BSplineCurve<Point3>) {
    let r = guard(|| cur.to_piecewise_bezier());
    let e = Ev::new("bezier").out(r, |e, ps| e.raw("pieces", &list(&ps, |b| v3s(&b.control_points))));
    c.ev(e);
}
