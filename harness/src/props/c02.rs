//! C02: evaluation of Bezier and B-spline surfaces.
use crate::rec::*;
use crate::Case;
use geom3d::surface::*;
use geom3d::*;

pub fn rows<T: Copy>(ps: &[T], cols: usize, f: impl Fn(T) -> String) -> String {
    let rs: Vec<Vec<T>> = ps.chunks(cols).map(|c| c.to_vec()).collect();
    list(&rs, |r| list(r, |p| f(*p)))
}

pub fn run(c: &mut Case) {
    let r = &mut c.rng;
    let rational = r.chance(1, 3);
    let kind = r.below(3);
    let (name, ev, surface, us, vs): (&str, Ev, Result<Box<dyn Surface>, String>, Vec<f64>, Vec<f64>);
    let evals = if c.thorough { 12 } else { 6 };
    let unit = |r: &mut crate::gen::Rng| -> Vec<f64> {
        let mut v = vec![0.0, 1.0];
        for _ in 0..evals {
            v.push(if r.chance(1, 2) { r.int(0, 32) as f64 / 32.0 } else { r.unit() });
        }
        v
    };
    if kind == 0 {
        let (n, m) = if r.chance(1, 10) { (r.int(2, 10) as usize, r.int(2, 10) as usize) } else { (r.int(2, 6) as usize, r.int(2, 6) as usize) };
        name = "bezier";
        us = unit(r);
        vs = unit(r);
        if rational {
            let ps = r.p4s(n * m);
            ev = Ev::new(name).b("rat", true).raw("net", &rows(&ps, m, v4));
            surface = guard(|| Box::new(BezierSurface::new(Grid::from_vec(ps, m))) as Box<dyn Surface>);
        } else {
            let ps = r.p3s(n * m);
            ev = Ev::new(name).b("rat", false).raw("net", &rows(&ps, m, v3));
            surface = guard(|| Box::new(BezierSurface::new(Grid::from_vec(ps, m))) as Box<dyn Surface>);
        }
    } else {
        let top = if r.chance(1, 10) { 6 } else { 4 };
        let low = if kind == 1 { 1 } else { 0 };
        let (p, mut q) = (r.int(low, top) as usize, r.int(low, top) as usize);
        let long = if r.chance(1, 12) { 9 } else { 4 };
        let (n, mut m) = (p + 1 + r.below(long), q + 1 + r.below(long));
        // alike in both directions but for the knots
        if r.chance(1, 4) {
            (q, m) = (p, n);
        }
        if kind == 1 {
            name = "uniform";
            us = unit(r);
            vs = unit(r);
            let e = Ev::new(name).n("p", p as i64).n("q", q as i64).b("rat", rational);
            if rational {
                let ps = r.p4s(n * m);
                ev = e.raw("net", &rows(&ps, m, v4));
                surface = guard(|| Box::new(BSplineSurface::uniform_clamped(Grid::from_vec(ps, m), (p, q))) as Box<dyn Surface>);
            } else {
                let ps = r.p3s(n * m);
                ev = e.raw("net", &rows(&ps, m, v3));
                surface = guard(|| Box::new(BSplineSurface::uniform_clamped(Grid::from_vec(ps, m), (p, q))) as Box<dyn Surface>);
            }
        } else {
            name = "bspline";
            let (cu, cv) = (r.chance(2, 3), r.chance(2, 3));
            let (t, mut s) = (r.scaled_knots(p, n, cu), r.scaled_knots(q, m, cv));
            if p == q && n == m && r.chance(2, 3) {
                // the same knots but for one inner knot, if that
                s = t.clone();
                let k = r.int(p as i64, n as i64) as usize;
                if k > 0 && k + 1 < s.len() {
                    s[k] = s[k - 1] + (s[k + 1] - s[k - 1]) * r.pick(&[0.25, 0.5, 0.75]);
                }
            }
            let fit = |us: Vec<f64>, a: f64, b: f64| -> Vec<f64> { us.into_iter().map(|u| u.max(a).min(b)).collect() };
            us = fit(r.params(&t, evals), t[p], t[n]);
            vs = fit(r.params(&s, evals), s[q], s[m]);
            let e = Ev::new(name).n("p", p as i64).n("q", q as i64).b("rat", rational).fs("t", &t).fs("s", &s);
            let knots = (KnotVector::new(t), KnotVector::new(s));
            if rational {
                let ps = r.p4s(n * m);
                ev = e.raw("net", &rows(&ps, m, v4));
                surface = guard(|| Box::new(BSplineSurface::new(Grid::from_vec(ps, m), knots, (p, q))) as Box<dyn Surface>);
            } else {
                let ps = r.p3s(n * m);
                ev = e.raw("net", &rows(&ps, m, v3));
                surface = guard(|| Box::new(BSplineSurface::new(Grid::from_vec(ps, m), knots, (p, q))) as Box<dyn Surface>);
            }
        }
    }
    let mut pairs: Vec<(f64, f64)> = us.iter().cloned().zip(vs.iter().cloned()).collect();
    // the diagonal, as far as it is in the domain
    pairs.extend(us.iter().filter(|u| vs[0] <= **u && **u <= vs[1]).take(evals).map(|u| (*u, *u)));
    pairs.push((us[0], vs[1]));
    pairs.push((us[1], vs[0]));
    c.ev(ev.out(surface.as_ref().map(|_| ()).map_err(|m| m.clone()), |e, _| e));
    if let Ok(surface) = surface {
        for (u, v) in pairs {
            let e = Ev::new("eval").f("u", u).f("v", v).out(guard(|| surface.get_point(u, v)), |e, p| e.v3("out", p));
            c.ev(e);
        }
    }
}
