//! C24: polygons of edge loops.
use crate::gen::{AnyCurve, Rng};
use crate::rec::*;
use crate::Case;
use geom3d::curve::*;
use geom3d::surface::EdgeLoop;
use geom3d::*;

struct Edge(AnyCurve, (f64, f64), f64);

/// a straight edge from p to q, on some curve, along or against it
fn straight(r: &mut Rng, p: Point3, q: Point3) -> Edge {
    let tol = r.pick(&[0.01, 1e-3, 0.1]);
    let (a, b, against) = if r.chance(1, 2) { (p, q, false) } else { (q, p, true) };
    let turn = |(x, y): (f64, f64)| if against { (y, x) } else { (x, y) };
    if p == q {
        return Edge(AnyCurve::Line(p, Vec3::new(1.0, 2.0, 0.5)), (0.0, 0.0), tol);
    }
    match r.below(5) {
        0 => {
            let (u0, len) = (r.int(-4, 4) as f64, r.pick(&[1.0, 2.0, 0.5, 4.0]));
            let d = (b - a) / len;
            Edge(AnyCurve::Line(a - d * u0, d), turn((u0, u0 + len)), tol)
        }
        1 => Edge(AnyCurve::Polyline(vec![a, b]), turn((0.0, 1.0)), tol),
        2 => Edge(AnyCurve::Bezier(vec![a, b]), turn((0.0, 1.0)), tol),
        3 => {
            let (s, e) = (r.int(-3, 0) as f64, r.int(1, 5) as f64);
            Edge(AnyCurve::BSpline(1, vec![s, s, e, e], vec![a, b]), turn((s, e)), tol)
        }
        _ => {
            let w = r.pick(&[1.0, 0.5, 2.0]);
            Edge(AnyCurve::RBezier(vec![(a * w).extend(w), (b * w).extend(w)]), turn((0.0, 1.0)), tol)
        }
    }
}

/// a tolerance that interval sizes do not come near to
fn tolerance(r: &mut Rng, dev: f64) -> f64 {
    dev / 4f64.powi(r.int(1, 4) as i32) * 2.0 * r.range(0.8, 1.2)
}

/// a curved edge from p to q
fn curved(r: &mut Rng, p: Point3, q: Point3) -> Edge {
    let against = r.chance(1, 2);
    let (a, b) = if against { (q, p) } else { (p, q) };
    let m = loop {
        let m = (a + b) * 0.5 + r.d3();
        if (a - m * 2.0 + b).length() > 1.0 {
            break m;
        }
    };
    let dev = (a - m * 2.0 + b).length() / 4.0;
    let tol = tolerance(r, dev);
    if r.chance(1, 2) {
        Edge(AnyCurve::Bezier(vec![a, m, b]), if against { (1.0, 0.0) } else { (0.0, 1.0) }, tol)
    } else {
        let (s, e) = (r.int(-3, 0) as f64, r.int(1, 5) as f64);
        Edge(AnyCurve::BSpline(2, vec![s, s, s, e, e, e], vec![a, m, b]), if against { (e, s) } else { (s, e) }, tol)
    }
}

/// an arc, and where it starts and ends
fn arc(r: &mut Rng, closed: bool) -> (Edge, Point3, Point3) {
    let (x, _, z) = r.frame();
    let radius = r.int(4, 64) as f64 / 8.0;
    let a = r.int(-8, 8) as f64 / 4.0;
    let turn = if closed { std::f64::consts::TAU } else { r.int(2, 24) as f64 / 4.0 };
    let (a, b) = if r.chance(1, 2) { (a, a + turn) } else { (a + turn, a) };
    let k = AnyCurve::Circle(r.d3(), radius, z, x);
    // well inside the quadratic regime of the deviation
    let h = turn / 2f64.powi(r.int(2, 4) as i32);
    let tol = radius * (1.0 - (h / 2.0).cos()) * 2.0 * r.range(0.8, 1.1);
    let c = k.boxed();
    (Edge(k, (a, b), tol), c.get_point(a), c.get_point(b))
}

fn emit(c: &mut Case, edges: Vec<Edge>) {
    let desc = list(&edges, |e| format!("{{\"c\":{},\"a\":{},\"b\":{},\"tol\":{}}}", e.0.json(), f64s(e.1 .0), f64s(e.1 .1), f64s(e.2)));
    let l = EdgeLoop {
        edges: edges.iter().map(|e| CurveSegment { curve: e.0.boxed(), parameter_range: e.1, tolerance: e.2, parameter_division: 8 }).collect(),
    };
    let res = guard(|| l.to_polygon());
    c.ev(Ev::new("loop").raw("edges", &desc).out(res, |e, v| e.v3s("out", &v)));
}

pub fn run(c: &mut Case) {
    let scn = c.scn.clone();
    let r = &mut c.rng;
    if let Some(s) = scn {
        // a walk along a line of points, neighbours closer than the tolerance
        let o = r.d3();
        let (x, _, _) = r.frame();
        let at = |k: i64| o + x * (k as f64 * 2.5e-4);
        let w = &s[1..];
        let edges = (0..w.len()).map(|i| straight(r, at(w[i]), at(w[(i + 1) % w.len()]))).collect();
        return emit(c, edges);
    }
    let mut edges = vec![];
    match r.below(8) {
        0 => {}
        1 => edges.push(arc(r, true).0),
        2 => {
            // one closed curve of degree two, out and back
            let p = r.d3();
            edges.push(curved(r, p, p));
        }
        3 => {
            // an arc and edges back to its start
            let (e, p, q) = arc(r, false);
            edges.push(e);
            let m = r.d3();
            edges.push(curved(r, q, m));
            edges.push(straight(r, m, p));
            if r.chance(1, 2) {
                edges.rotate_left(1);
            }
        }
        k => {
            let n = if r.chance(1, 10) { r.int(8, 40) } else { r.int(1, 7) } as usize;
            let ps = if k == 4 {
                // some corners fall together, or nearly
                let mut ps: Vec<Point3> = vec![];
                for i in 0..n {
                    let far = r.d3();
                    let small = Vec3::new(r.int(-2, 2) as f64, r.int(-2, 2) as f64, 0.0) * 2.3e-4;
                    ps.push(if i > 0 && r.chance(1, 2) { ps[i - 1] + small } else { far });
                }
                ps
            } else {
                r.d3s(n)
            };
            for i in 0..n {
                let (p, q) = (ps[i], ps[(i + 1) % n]);
                edges.push(if r.chance(1, 3) { curved(r, p, q) } else { straight(r, p, q) });
            }
        }
    }
    emit(c, edges);
}
