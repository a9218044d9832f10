//! C10: uniform and adaptive sampling, refinement of arcs.
use crate::gen::{AnyCurve, Rng};
use crate::rec::*;
use crate::Case;
use geom3d::curve::{Circle, CurveSegment};
use geom3d::*;

/// (x(u), y(u), u): every point of the curve tells its parameter
#[derive(Debug, Clone)]
struct Graph {
    xs: Vec<f64>,
    ys: Vec<f64>,
}

fn bernstein(c: &[f64], u: f64) -> f64 {
    let mut v = c.to_vec();
    while v.len() > 1 {
        v = v.windows(2).map(|w| w[0] * (1.0 - u) + w[1] * u).collect();
    }
    v[0]
}

impl Curve for Graph {
    fn get_point(&self, u: f64) -> Point3 {
        Point3::new(bernstein(&self.xs, u), bernstein(&self.ys, u), u)
    }
    fn project(&self, p: Point3) -> f64 {
        p.z
    }
}
use geom3d::curve::Curve;

/// Bezier coefficients whose second differences are all of one sign
fn one_sided(r: &mut Rng, n: usize) -> Vec<f64> {
    let sign = r.pick(&[1.0, -1.0]);
    let mut d = r.int(-8, 8) as f64 / 4.0;
    let mut x = r.int(-8, 8) as f64 / 4.0;
    let mut out = vec![x];
    for _ in 0..n {
        x += d;
        out.push(x);
        d += sign * r.int(0, 8) as f64 / 4.0;
    }
    out
}

fn dyadic(r: &mut Rng) -> f64 {
    r.int(0, 64) as f64 / 64.0
}

/// (y(u), 0, u) with y a convex polygon that bends by one at the given integers
#[derive(Debug, Clone)]
struct Kinks(Vec<i64>, f64);

impl Curve for Kinks {
    fn get_point(&self, u: f64) -> Point3 {
        let y = self.0.iter().map(|k| (u / self.1 - *k as f64).max(0.0)).sum();
        Point3::new(y, 0.0, u)
    }
    fn project(&self, p: Point3) -> f64 {
        p.z
    }
}

fn kinks(c: &mut Case, bits: &[i64]) {
    let bends: Vec<i64> = (0..bits.len()).filter(|i| bits[*i] == 1).map(|i| i as i64 + 1).collect();
    let n = bits.len() as i64 + 1;
    let scale = c.rng.pick(&[1.0, 0.125, -2.0]);
    let range = (0.0, n as f64 * scale);
    let curve = Kinks(bends.clone(), scale);
    let ev = |out: Result<Vec<f64>, String>| {
        Ev::new("kinks").n("n", n).f("scale", scale).raw("bends", &is(&bends)).out(out, |e, v| e.fs("out", &v)).done()
    };
    let a = ev(guard(|| utils::parameter_division(&curve, range, 1e-9)));
    let seg = CurveSegment { curve: curve.clone(), parameter_range: range, tolerance: 1e-9, parameter_division: 3 };
    let b = ev(guard(|| seg.get_points().iter().map(|p| p.z).collect()));
    c.evs.push(a);
    c.evs.push(b);
}

/// (y(u), 0, u) with y rising by one at given places
#[derive(Debug, Clone)]
struct Jumps(Vec<f64>);

impl Curve for Jumps {
    fn get_point(&self, u: f64) -> Point3 {
        Point3::new(self.0.iter().filter(|s| **s <= u).count() as f64, 0.0, u)
    }
    fn project(&self, p: Point3) -> f64 {
        p.z
    }
}

fn jumps(c: &mut Case) {
    let r = &mut c.rng;
    let n = r.int(1, 3) as usize;
    let mut at: Vec<f64> = (0..n).map(|_| if r.chance(1, 2) { r.int(1, 15) as f64 / 16.0 } else { r.range(0.01, 0.99) }).collect();
    at.sort_by(|a, b| a.partial_cmp(b).unwrap());
    at.dedup();
    let range = if r.chance(1, 2) { (0.0, 1.0) } else { (1.0, 0.0) };
    let d = r.int(1, 3) as usize;
    let curve: Box<dyn Curve> = if r.chance(1, 2) {
        Box::new(Jumps(at.clone()))
    } else {
        // a spline whose pieces are points, as knots of full multiplicity allow
        let all: Vec<f64> = std::iter::once(0.0).chain(at.iter().copied()).chain([1.0]).collect();
        let knots = all.iter().flat_map(|k| vec![*k; d + 1]).collect::<Vec<_>>();
        let ps = (0..all.len() - 1).flat_map(|i| vec![Point3::new(i as f64, 0.0, 2.0); d + 1]).collect();
        Box::new(curve::BSplineCurve { control_points: ps, knots: KnotVector::new(knots), degree: d as u8 })
    };
    let out = guard(|| utils::parameter_division(curve.as_ref(), range, 0.25));
    c.ev(Ev::new("jumps").fs("at", &at).f("a", range.0).f("b", range.1).out(out, |e, v| e.fs("out", &v)));
    let seg = CurveSegment { curve, parameter_range: range, tolerance: 0.25, parameter_division: 3 };
    let out = guard(|| seg.get_points());
    c.ev(Ev::new("levels").n("n", at.len() as i64).b("up", range.0 == 0.0).out(out, |e, v| {
        // how often the height changes, and by how much in all
        let steps = v.windows(2).filter(|w| w[0].x.round() != w[1].x.round()).count() as i64;
        e.n("steps", steps).f("first", v[0].x).f("last", v[v.len() - 1].x)
    }));
}

pub fn run(c: &mut Case) {
    if let Some(bits) = c.scn.clone() {
        return kinks(c, &bits);
    }
    if c.rng.chance(1, 16) {
        return jumps(c);
    }
    let r = &mut c.rng;
    match r.below(4) {
        0 => {
            for _ in 0..6 {
                let (a, b) = match r.below(6) {
                    0 => (0.0, 1.0),
                    4 => (r.coord() * 1e-9, r.coord() * 1e-9),
                    5 => (r.coord() * 1e9, r.coord() * 1e9),
                    1 => {
                        let (a, b) = (r.int(-64, 64), r.int(-64, 64));
                        (a as f64 / 8.0, b as f64 / 8.0)
                    }
                    _ => (r.coord(), r.coord()),
                };
                let n = match r.below(12) {
                    0 => r.pick(&[64, 100, 128, 255, 256, 257, 300]),
                    1..=3 => r.int(1, 40),
                    _ => r.int(1, 9),
                };
                let e = Ev::new("divide").f("a", a).f("b", b).n("n", n);
                let e = e.out(guard(|| utils::uniform_divide((a, b), n as usize)), |e, v| e.fs("out", &v));
                c.evs.push(e.done());
            }
        }
        1 => {
            // arcs: angles as project() gives them
            use std::f64::consts::*;
            let k = AnyCurve::circle(r);
            let special = [0.0, FRAC_PI_2, PI, 1.5 * PI, 1.0];
            for _ in 0..8 {
                let mut ang = |r: &mut Rng| if r.chance(1, 3) { r.pick(&special) } else { r.range(0.0, TAU) };
                let a = ang(r);
                // ends that are the same, close together, or nearly a turn apart
                let near = r.range(0.0, 0.4) * r.pick(&[1.0, 1e-1, 1e-3, 1e-6]);
                let b = match r.below(8) {
                    0 | 1 => a,
                    2 => (a + near).min(TAU),
                    3 => (a - near).max(0.0),
                    _ => ang(r),
                };
                let (a, b) = match r.below(10) {
                    0 => (near, TAU - r.range(0.0, 0.3)),
                    1 => (TAU - near, r.range(0.0, 0.3)),
                    _ => (a, b),
                };
                let same = r.chance(1, 2);
                let boxed = r.chance(1, 2);
                let e = Ev::new("refine").f("a", a).f("b", b).b("same", same);
                let circle = k.boxed();
                let out = guard(|| {
                    if boxed {
                        Curve::refine_parameter_range(&circle, (a, b), same)
                    } else {
                        circle.downcast_ref::<Circle>().unwrap().refine_parameter_range((a, b), same)
                    }
                });
                c.evs.push(e.out(out, |e, (x, y)| e.fs("out", &[x, y])).done());
            }
        }
        2 => {
            let n = r.int(2, 4) as usize;
            let onesided = r.chance(2, 3);
            let g = if onesided {
                Graph { xs: one_sided(r, n), ys: one_sided(r, n) }
            } else {
                let mut w = |n: usize| (0..=n).map(|_| r.int(-16, 16) as f64 / 4.0).collect::<Vec<_>>();
                Graph { xs: w(n), ys: w(n) }
            };
            let (mut a, mut b) = (dyadic(r), dyadic(r));
            if r.chance(1, 4) {
                (a, b) = (r.unit(), r.unit());
            }
            if a == b {
                b = if a < 0.5 { a + 0.5 } else { a - 0.5 };
            }
            let tol = r.pick(&[0.5, 0.1, 0.01, 0.001]);
            let co = |x: &[f64]| list(x, |v| format!("[{}]", f64s(*v)));
            c.ev(Ev::new("curve")
                .raw("c", &format!("{{\"kind\":\"graph\",\"xs\":{},\"ys\":{}}}", co(&g.xs), co(&g.ys)))
                .f("a", a)
                .f("b", b)
                .f("tol", tol)
                .b("onesided", onesided));
            for i in 0..3 {
                let out = guard(|| {
                    if i == 0 {
                        CurveSegment { curve: g.clone(), parameter_range: (a, b), tolerance: tol, parameter_division: 4 }.get_points()
                    } else {
                        let curve: Box<dyn Curve> = Box::new(g.clone());
                        CurveSegment { curve, parameter_range: (a, b), tolerance: tol, parameter_division: 4 }.get_points()
                    }
                });
                c.evs.push(Ev::new("points").out(out, |e, v| e.v3s("out", &v)).done());
            }
        }
        _ => {
            // the library's own curves
            let mut onesided = false;
            let curve = match r.below(6) {
                0 => AnyCurve::line(r),
                1 => {
                    onesided = true;
                    AnyCurve::circle(r)
                }
                2 => AnyCurve::Polyline(r.d3s(4)),
                3 => {
                    onesided = true;
                    AnyCurve::bezier(r, 2)
                }
                4 => {
                    let p = r.int(3, 5) as usize;
                    AnyCurve::bezier(r, p)
                }
                _ => {
                    let p = r.int(2, 4) as usize;
                    let n = p + 1 + r.below(4);
                    // simple knots: the curve must be continuous
                    let mut t = vec![0.0; p + 1];
                    for _ in 0..n - p - 1 {
                        t.push(t[t.len() - 1] + r.int(1, 8) as f64 / 4.0);
                    }
                    t.extend(vec![t[t.len() - 1] + 1.0; p + 1]);
                    AnyCurve::BSpline(p, t, r.d3s(n))
                }
            };
            let (lo, hi) = curve.domain();
            let (mut a, mut b) = (lo + (hi - lo) * dyadic(r), lo + (hi - lo) * dyadic(r));
            if let AnyCurve::Circle(..) = curve {
                a = r.range(0.0, 6.28);
                b = a + r.range(-6.28, 6.28);
                if r.chance(1, 3) {
                    b = a + std::f64::consts::TAU;
                }
            }
            if a == b {
                (a, b) = (lo, hi);
            }
            let size = match curve {
                AnyCurve::Circle(_, rad, ..) => rad,
                _ => 8.0,
            };
            let mut tol = size * r.pick(&[0.05, 0.01, 0.001]);
            if r.chance(1, 4) {
                // a short piece, finely
                let w = r.pick(&[0.05, 0.01, 0.002]);
                let middle = (a + b) / 2.0;
                let sign = if a < b { 1.0 } else { -1.0 };
                (a, b) = (middle, middle + sign * (w * (hi - lo)).min((b - a).abs() / 2.0));
                tol = size * w * w * r.pick(&[1.0, 0.1, 0.03]);
            }
            // in any unit of length
            let k = if r.chance(1, 3) { r.pick(&[1024.0, 65536.0, 1.0 / 64.0]) } else { 1.0 };
            tol *= k;
            let curve = match curve {
                AnyCurve::Line(o, d) => AnyCurve::Line(o * k, d * k),
                AnyCurve::Circle(o, rad, z, x) => AnyCurve::Circle(o * k, rad * k, z, x),
                AnyCurve::Polyline(vs) => AnyCurve::Polyline(vs.into_iter().map(|v| v * k).collect()),
                AnyCurve::Bezier(vs) => AnyCurve::Bezier(vs.into_iter().map(|v| v * k).collect()),
                AnyCurve::BSpline(p, t, vs) => AnyCurve::BSpline(p, t, vs.into_iter().map(|v| v * k).collect()),
                c => c,
            };
            c.ev(Ev::new("curve").raw("c", &curve.json()).f("a", a).f("b", b).f("tol", tol).b("onesided", onesided));
            let it = curve.boxed();
            let out = guard(|| utils::parameter_division(it.as_ref(), (a, b), tol));
            c.ev(Ev::new("params").out(out, |e, v| e.fs("out", &v)));
            let seg = CurveSegment { curve: it, parameter_range: (a, b), tolerance: tol, parameter_division: 7 };
            let out = guard(|| seg.get_points());
            c.ev(Ev::new("ends").out(out, |e, v| {
                let n = v.len();
                e.v3s("out", &if n > 2 { vec![v[0], v[n - 1]] } else { v })
            }));
        }
    }
}
