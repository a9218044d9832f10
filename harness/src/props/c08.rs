//! C08: projection onto Bezier and B-spline curves and surfaces.
use crate::gen::{AnyCurve, Rng};
use crate::rec::*;
use crate::Case;
use geom3d::surface::*;
use geom3d::*;

/// clamped knots with simple inner ones
fn simple_knots(r: &mut Rng, p: usize, n: usize) -> Vec<f64> {
    let mut x = r.pick(&[0.0, 1.0, -3.5]);
    let mut t = vec![x; p + 1];
    for _ in 0..n - p - 1 {
        x += r.int(3, 5) as f64 / 4.0;
        t.push(x);
    }
    x += 1.0;
    t.extend(vec![x; p + 1]);
    t
}

fn ps_size(ps: &[Point3]) -> f64 {
    ps.iter().map(|p| p.abs().max_element()).fold(0.0, f64::max)
}

/// the search itself, over any part of the range, with any sampling and number of steps
fn nearest(r: &mut Rng, curve: &AnyCurve, qs: &[Point3]) -> Vec<Ev> {
    let (a, b) = curve.domain();
    let at = |k: i64| a + (b - a) * k as f64 / 8.0;
    let (mut lo, mut hi) = (at(r.int(0, 3)), at(r.int(5, 8)));
    if r.chance(1, 4) {
        std::mem::swap(&mut lo, &mut hi);
    }
    let division = r.int(1, 12) as usize;
    let trials = r.pick(&[0, 1, 2, 5, 10, 30]);
    let find = |q: Point3| match curve {
        AnyCurve::Bezier(ps) => {
            let c = curve::BezierCurve { control_points: ps.clone() };
            let (d1, d2) = (c.derivative(), c.derivative().derivative());
            utils::find_nearest_parameter(&c, &d1, &d2, q, (lo, hi), division, trials)
        }
        AnyCurve::BSpline(p, t, ps) => {
            let c = curve::BSplineCurve { control_points: ps.clone(), knots: KnotVector::new(t.clone()), degree: *p as u8 };
            let (d1, d2) = (c.derivative(), c.derivative().derivative());
            utils::find_nearest_parameter(&c, &d1, &d2, q, (lo, hi), division, trials)
        }
        _ => lo,
    };
    qs.iter()
        .map(|q| {
            let e = Ev::new("nearest").v3("q", *q).f("lo", lo).f("hi", hi).n("division", division as i64);
            e.out(guard(|| find(*q)), |e, u| e.fs("out", &[u]))
        })
        .collect()
}

/// the point targets of one curve or surface
fn targets(r: &mut Rng, on: &[Point3], regular: bool) -> Vec<(Point3, bool)> {
    let mut qs = Vec::new();
    for p in on {
        qs.push((*p, regular));
        qs.push((*p + r.d3() / 16.0, false));
    }
    for _ in 0..3 {
        qs.push((r.d3(), false));
    }
    qs.push((r.p3(), false));
    qs
}

pub fn run(c: &mut Case) {
    let r = &mut c.rng;
    let regular = r.chance(1, 3);
    if r.chance(3, 4) {
        let p = if r.chance(1, 8) { r.pick(&[1, 6, 7]) } else { r.int(2, 5) as usize };
        let bezier = r.chance(1, 2);
        let n = if bezier { p + 1 } else { p + 1 + if r.chance(1, 8) { r.below(12) } else { r.below(4) } };
        let ps: Vec<Point3> = if regular {
            // a graph over a line, without strong curvature
            let (x, y, z) = r.frame();
            let o = r.d3();
            let step = r.pick(&[1.0, 2.0, 4.0]);
            (0..n)
                .map(|i| {
                    let mut w = || r.int(-8, 8) as f64 / 32.0;
                    o + (x * (i as f64 + w() * 0.5) + y * w() + z * w()) * step
                })
                .collect()
        } else {
            let k = r.pick(&[1.0, 1.0, 1.0, 1.0, 64.0, 1024.0, 1.0 / 16.0]);
            r.d3s(n).into_iter().map(|p| p * k).collect()
        };
        let curve = if bezier {
            AnyCurve::Bezier(ps)
        } else {
            // a curve of degree 1 is a polyline, without gaps
            let t = if regular || p == 1 { simple_knots(r, p, n) } else { r.scaled_knots(p, n, true) };
            AnyCurve::BSpline(p, t, ps)
        };
        let it = curve.boxed();
        let (a, b) = curve.domain();
        let mut on = Vec::new();
        for i in 0..4 {
            let u = match i {
                0 => a,
                1 => b,
                _ => r.range(a, b),
            };
            on.push(it.get_point(u));
        }
        let size = ps_size(&on);
        let mut qs = targets(r, &on, regular && p > 1);
        if size > 32.0 {
            // far points for large curves
            for (q, _) in qs.iter_mut().skip(on.len() * 2) {
                *q = *q * (size / 8.0);
            }
        }
        let more = if p > 1 && r.chance(1, 3) {
            let some: Vec<Point3> = qs.iter().step_by(3).map(|x| x.0).collect();
            nearest(r, &curve, &some)
        } else {
            vec![]
        };
        c.ev(Ev::new("curve").raw("c", &curve.json()));
        for (q, on) in qs {
            let e = Ev::new("project").v3("q", q).b("on", on).out(guard(|| it.project(q)), |e, u| e.fs("out", &[u]));
            c.ev(e);
        }
        for e in more {
            c.ev(e);
        }
    } else {
        let (p, q) = (r.int(1, 3) as usize, r.int(1, 3) as usize);
        let (n, m) = ((p + 1 + r.below(2)).max(2), (q + 1 + r.below(2)).max(2));
        let (x, y, z) = r.frame();
        let o = r.d3();
        let mut net = Vec::new();
        for i in 0..n {
            for j in 0..m {
                net.push(if regular {
                    let mut w = || r.int(-8, 8) as f64 / 32.0;
                    let (a, b, c) = (i as f64 + w() * 0.5, j as f64 + w() * 0.5, w());
                    o + (x * a + y * b + z * c) * 2.0
                } else {
                    r.d3()
                });
            }
        }
        if !regular && r.chance(1, 3) {
            // a row that collapses to a point
            let i = r.below(n);
            for j in 0..m {
                net[i * m + j] = net[i * m];
            }
        }
        let (t, s) = if regular { (simple_knots(r, p, n), simple_knots(r, q, m)) } else { (r.scaled_knots(p, n, true), r.scaled_knots(q, m, true)) };
        let surface = BSplineSurface {
            control_points: Grid::from_vec(net.clone(), m),
            knots: (KnotVector::new(t.clone()), KnotVector::new(s.clone())),
            degree: (p as u8, q as u8),
        };
        let mut on = Vec::new();
        for i in 0..3 {
            let (u, v) = match i {
                0 => (t[0], r.range(s[0], s[s.len() - 1])),
                _ => (r.range(t[0], t[t.len() - 1]), r.range(s[0], s[s.len() - 1])),
            };
            on.push(surface.get_point(u, v));
        }
        // two sheets may meet in degree 1 creases, which are not regular
        let qs = targets(r, &on, regular && p > 1 && q > 1);
        let rows: Vec<String> = net.chunks(m).map(v3s).collect();
        c.ev(Ev::new("surface").raw("net", &format!("[{}]", rows.join(","))).fs("t", &t).fs("s", &s).n("p", p as i64).n("q", q as i64));
        let pts: Vec<Point3> = qs.iter().map(|x| x.0).collect();
        match guard(|| surface.project_points(&pts)) {
            Ok(ws) => {
                for ((q, on), w) in qs.into_iter().zip(ws) {
                    c.ev(Ev::new("project").v3("q", q).b("on", on).v2("out", w));
                }
            }
            Err(m) => c.ev(Ev::new("project").s("panic", &m)),
        }
    }
}
