//! C03: derivatives of curves and surfaces.
use super::c02::rows;
use crate::rec::*;
use crate::Case;
use geom3d::curve::*;
use geom3d::surface::*;
use geom3d::*;

fn inside(us: Vec<f64>, t: &[f64], p: usize, n: usize) -> Vec<f64> {
    // the right end of an unclamped domain has its one-sided derivative outside
    let clamped = t[n] == t[t.len() - 1];
    us.into_iter().filter(|u| *u >= t[p] && (*u < t[n] || (clamped && *u == t[n]))).collect()
}

fn curve_events(c: &mut Case, p: usize, us: Vec<f64>, ders: Vec<Result<(usize, Box<dyn Curve>), String>>) {
    for (k, d) in ders.into_iter().enumerate() {
        for &u in &us {
            let e = Ev::new("der").n("k", k as i64).f("u", u);
            let e = match &d {
                Err(m) => e.s("panic", m),
                Ok((deg, d)) => e.n("deg", *deg as i64).out(guard(|| d.get_point(u)), |e, v| e.v3("out", v)),
            };
            c.ev(e);
        }
    }
    let _ = p;
}

pub fn run(c: &mut Case) {
    let evals = if c.thorough { 10 } else { 4 };
    if let Some(s) = c.scn.clone() {
        let (p, t) = super::knot_scenario(&s);
        let n = t.len() - p - 1;
        let us = inside(super::half_steps(&t), &t, p, n);
        return bspline(c, p, n, t, us);
    }
    match c.rng.below(5) {
        0 => {
            let n = c.rng.int(2, 7) as usize;
            let ps = c.rng.p3s(n);
            let mut us = vec![0.0, 1.0];
            for _ in 0..evals {
                us.push(if c.rng.chance(1, 2) { c.rng.int(-8, 72) as f64 / 64.0 } else { c.rng.unit() });
            }
            c.ev(Ev::new("bezier").v3s("ps", &ps));
            let mut d = Ok(BezierCurve { control_points: ps });
            let mut ders: Vec<Result<(usize, Box<dyn Curve>), String>> = Vec::new();
            for k in 0..n {
                let next = match &d {
                    Ok(x) => guard(|| (x.degree(), BezierCurve { control_points: x.control_points.clone() }))
                        .map(|(g, x)| (g, Box::new(x) as Box<dyn Curve>)),
                    Err(m) => Err::<(usize, Box<dyn Curve>), String>(String::clone(m)),
                };
                ders.push(next);
                if k + 1 < n {
                    d = match &d {
                        Ok(x) => guard(|| x.derivative()),
                        Err(m) => Err(m.clone()),
                    };
                }
            }
            curve_events(c, n - 1, us, ders);
        }
        1 | 2 => {
            let p = if c.rng.chance(1, 10) { 7 } else { c.rng.int(1, 5) as usize };
            let n = p + 1 + c.rng.below(6);
            let clamped = c.rng.chance(2, 3);
            let t = c.rng.scaled_knots(p, n, clamped);
            let us = inside(c.rng.params(&t, evals), &t, p, n);
            bspline(c, p, n, t, us)
        }
        _ => surface(c, evals),
    }
}

fn bspline(c: &mut Case, p: usize, n: usize, t: Vec<f64>, us: Vec<f64>) {
    let ps = c.rng.d3s(n);
    c.ev(Ev::new("bspline").n("p", p as i64).fs("t", &t).v3s("ps", &ps));
    let mut d = Ok(BSplineCurve { control_points: ps, knots: KnotVector::new(t), degree: p as u8 });
    let mut ders: Vec<Result<(usize, Box<dyn Curve>), String>> = Vec::new();
    for k in 0..=p {
        ders.push(match &d {
            Ok(x) => Ok((x.degree(), Box::new(x.clone()) as Box<dyn Curve>)),
            Err(m) => Err(String::clone(m)),
        });
        if k < p {
            d = match &d {
                Ok(x) => guard(|| x.derivative()),
                Err(m) => Err(m.clone()),
            };
        }
    }
    curve_events(c, p, us, ders);
}

fn surface(c: &mut Case, evals: usize) {
    let r = &mut c.rng;
    let (p, mut q) = (r.int(1, 4) as usize, r.int(1, 4) as usize);
    let (n, mut m) = (p + 1 + r.below(4), q + 1 + r.below(4));
    let (cu, mut cv) = (r.chance(2, 3), r.chance(2, 3));
    // alike in both directions but for the knots
    let alike = r.chance(1, 3);
    if alike {
        (q, m, cv) = (p, n, cu);
    }
    let (t, mut s) = (r.scaled_knots(p, n, cu), r.scaled_knots(q, m, cv));
    if alike && r.chance(2, 3) {
        s = t.clone();
        if n > p + 1 {
            // one inner knot moved, between its neighbours
            let k = r.int(p as i64 + 1, n as i64 - 1) as usize;
            s[k] = s[k - 1] + (s[k + 1] - s[k - 1]) * r.pick(&[0.25, 0.5, 0.75]);
        }
    }
    let us = inside(r.params(&t, evals), &t, p, n);
    let vs = inside(r.params(&s, evals), &s, q, m);
    let mut pairs: Vec<(f64, f64)> = us.iter().cloned().zip(vs.iter().cloned()).collect();
    if cu && cv {
        pairs.push((us[0], vs[1]));
    }
    let ps = r.d3s(n * m);
    let (t0, tn, s0, sm) = (t[p], t[n], s[q], s[m]);
    // orders of differentiation: none beyond degree + 1 in each direction, in any order
    let mut words: Vec<Vec<bool>> = vec![vec![], vec![true], vec![false], vec![true, false], vec![false, true], vec![true, true], vec![false, false]];
    let extra = (0..r.int(1, 4)).map(|_| r.chance(1, 2)).collect::<Vec<_>>();
    words.push(extra);
    if p == 1 || r.chance(1, 6) {
        words.push(vec![true; p + 1]);
    }
    if q == 1 || r.chance(1, 6) {
        words.push(vec![false; q + 1]);
    }
    c.ev(Ev::new("surface").n("p", p as i64).n("q", q as i64).fs("t", &t).fs("s", &s).raw("net", &rows(&ps, m, v3)));
    let base = BSplineSurface::new(Grid::from_vec(ps, m), (KnotVector::new(t), KnotVector::new(s)), (p, q));
    for w in words {
        let (ku, kv) = (w.iter().filter(|x| **x).count(), w.iter().filter(|x| !**x).count());
        // once zero, a derivative object has its own unit-square domain: same value everywhere
        let _ = (t0, tn, s0, sm);
        let d = guard(|| {
            let mut d = base.clone();
            for u in &w {
                d = if *u { d.derivative_u() } else { d.derivative_v() };
            }
            d
        });
        for &(u, v) in &pairs {
            let e = Ev::new("sder").n("ku", ku as i64).n("kv", kv as i64).f("u", u).f("v", v);
            let e = match &d {
                Err(m) => e.s("panic", m),
                Ok(d) => e.out(guard(|| d.get_point(u, v)), |e, x| e.v3("out", x)),
            };
            c.ev(e);
        }
    }
}
