//! C01: evaluation of Bezier and B-spline curves.
use crate::rec::*;
use crate::Case;
use geom3d::curve::*;
use geom3d::*;

/// replay of a knot vector enumerated by MCKnots
fn scenario(c: &mut Case, s: Vec<i64>) {
    let (p, t) = super::knot_scenario(&s);
    let n = t.len() - p - 1;
    let ps = c.rng.d3s(n);
    c.ev(Ev::new("bspline").n("p", p as i64).fs("t", &t).b("rat", false).v3s("ps", &ps));
    let curve = BSplineCurve { control_points: ps, knots: KnotVector::new(t.clone()), degree: p as u8 };
    for u in super::half_steps(&t) {
        let e = Ev::new("eval").f("u", u).out(guard(|| curve.get_point(u)), |e, p| e.v3("out", p));
        c.ev(e);
    }
}

pub fn run(c: &mut Case) {
    if let Some(s) = c.scn.clone() {
        return scenario(c, s);
    }
    let r = &mut c.rng;
    let rational = r.chance(1, 3);
    let evals = if c.thorough { 14 } else { 7 };
    if r.chance(1, 4) {
        let high = !rational && r.chance(1, 10);
        let n = if high {
            r.int(15, 40)
        } else if r.chance(1, 8) {
            r.int(8, 14)
        } else {
            r.int(1, 7)
        } as usize;
        let (ev, curve): (Ev, Box<dyn Curve>) = if rational {
            let ps = r.p4s(n);
            (Ev::new("bezier").b("rat", true).raw("ps", &list(&ps, |p| v4(*p))), Box::new(BezierCurve { control_points: ps }))
        } else {
            let ps = if high { r.d3s(n) } else { r.p3s(n) };
            (Ev::new("bezier").b("rat", false).v3s("ps", &ps), Box::new(BezierCurve { control_points: ps }))
        };
        let mut us = vec![0.0, 1.0, 0.5];
        for _ in 0..evals {
            us.push(match r.below(4) {
                0 => r.int(0, 64) as f64 / 64.0,
                1 if !rational && !high => r.range(-1.0, 2.0),
                _ if high => r.int(1, 1023) as f64 / 1024.0,
                _ => r.unit(),
            });
        }
        c.ev(ev);
        for u in us {
            let e = Ev::new("eval").f("u", u).out(guard(|| curve.get_point(u)), |e, p| e.v3("out", p));
            c.ev(e);
        }
        return;
    }
    let p = if r.chance(1, 10) { r.int(6, 9) } else { r.int(0, 5) } as usize;
    let n = p + 1 + if r.chance(1, 12) { r.below(24) } else { r.below(6) };
    let clamped = r.chance(2, 3);
    let t = r.scaled_knots(p, n, clamped);
    let mut us = r.params(&t, evals);
    let ev = Ev::new("bspline").n("p", p as i64).fs("t", &t).b("rat", rational);
    let knots = KnotVector::new(t.clone());
    let (ev, curve): (Ev, Box<dyn Curve>) = if rational {
        let ps = r.p4s(n);
        let (a, b) = (t[p], t[n]);
        for u in us.iter_mut() {
            *u = u.max(a).min(b);
        }
        (ev.raw("ps", &list(&ps, |p| v4(*p))), Box::new(BSplineCurve { control_points: ps, knots, degree: p as u8 }))
    } else {
        let ps = r.p3s(n);
        if clamped {
            // outside the domain the end pieces continue
            let len = t[t.len() - 1] - t[0];
            us.push(t[0] - len * r.int(1, 8) as f64 / 16.0);
            us.push(t[t.len() - 1] + len * r.int(1, 8) as f64 / 16.0);
        }
        (ev.v3s("ps", &ps), Box::new(BSplineCurve { control_points: ps, knots, degree: p as u8 }))
    };
    c.ev(ev);
    for u in us {
        let e = Ev::new("eval").f("u", u).out(guard(|| curve.get_point(u)), |e, p| e.v3("out", p));
        c.ev(e);
    }
}
