//! C14: planar faces bounded by one loop.
use super::c13::star;
use crate::gen::{AnyCurve, Rng};
use crate::rec::*;
use crate::Case;
use geom3d::curve::{Circle, Curve, CurveSegment};
use geom3d::surface::*;
use geom3d::*;

pub struct PlaneFrame(pub Point3, pub Vec3, pub Vec3);

impl PlaneFrame {
    pub fn any(r: &mut Rng) -> PlaneFrame {
        let (x, y, _) = r.frame();
        if r.chance(1, 3) {
            return PlaneFrame(Point3::ZERO, Vec3::X, Vec3::Y);
        }
        PlaneFrame(r.d3(), x, y)
    }
    pub fn plane(&self) -> Plane {
        Plane { origin: self.0, normal: self.1.cross(self.2), u_axis: self.1, v_axis: self.2 }
    }
    pub fn at(&self, p: Point2) -> Point3 {
        self.0 + self.1 * p.x + self.2 * p.y
    }
    pub fn ev(&self) -> Ev {
        Ev::new("plane").v3("o", self.0).v3("x", self.1).v3("y", self.2)
    }
}

/// straight edges between the points, of various kinds
pub fn straight_loop(r: &mut Rng, ps: &[Point3]) -> EdgeLoop {
    let n = ps.len();
    let edges = (0..n)
        .map(|i| {
            let (a, b) = (ps[i], ps[(i + 1) % n]);
            let (curve, range) = match r.below(6) {
                0 => (AnyCurve::Line(b, a - b), (1.0, 0.0)),
                1 => (AnyCurve::Polyline(vec![a, b]), (0.0, 1.0)),
                2 => (AnyCurve::Polyline(vec![b, a]), (1.0, 0.0)),
                3 => (AnyCurve::Bezier(vec![a, b]), (0.0, 1.0)),
                4 => (AnyCurve::BSpline(1, vec![2.0, 2.0, 5.0, 5.0], vec![a, b]), (2.0, 5.0)),
                _ => (AnyCurve::Line(a, b - a), (0.0, 1.0)),
            };
            CurveSegment { curve: curve.boxed(), parameter_range: range, tolerance: 0.001, parameter_division: 16 }
        })
        .collect();
    EdgeLoop { edges }
}

/// one trim of the plane with the loops, as an event
pub fn trim(r: &mut Rng, f: &PlaneFrame, loops: &[Vec<Point2>]) -> Ev {
    let mut bounds: Vec<EdgeLoop> = loops
        .iter()
        .map(|l| {
            let ps: Vec<Point3> = l.iter().map(|p| f.at(*p)).collect();
            straight_loop(r, &ps)
        })
        .collect();
    // loops without extent, or without edges, are no polygons
    if r.chance(1, 8) {
        for _ in 0..r.int(1, 2) {
            let at = f.at(loops[0][0] * 0.5);
            let ends = vec![at; r.below(3)];
            let idle = straight_loop(r, &ends);
            let k = r.below(bounds.len() + 1);
            bounds.insert(k, idle);
        }
    }
    let js: Vec<String> = loops.iter().map(|l| v2s(l)).collect();
    let boxed = r.chance(1, 2);
    let out = guard(|| {
        if boxed {
            let surface: Box<dyn Surface> = Box::new(f.plane());
            TrimmedSurface { surface, bounds }.get_triangle_mesh()
        } else {
            f.plane().trim(&bounds)
        }
    });
    Ev::new("trim").raw("loops", &format!("[{}]", js.join(","))).out(out, |e, m| e.v3s("vs", &m.vertices).raw("ts", &tris(&m.triangles)))
}

fn area(ps: &[Point2]) -> f64 {
    let n = ps.len();
    (0..n).map(|i| ps[i].perp_dot(ps[(i + 1) % n])).sum::<f64>() / 2.0
}

/// a simple rectilinear or slanted polygon with deep notches
fn comb(r: &mut Rng) -> Vec<Point2> {
    let teeth = if r.chance(1, 6) { r.int(6, 12) } else { r.int(1, 5) };
    let mut ps = vec![];
    let slant = r.int(-3, 3) as f64 / 4.0;
    for i in 0..teeth {
        let x = 4.0 * i as f64;
        ps.push(Point2::new(x, 0.0));
        let h = 1.0 + r.int(1, 12) as f64 / 2.0;
        ps.push(Point2::new(x + 1.0 + slant, h));
        if r.chance(1, 2) {
            ps.push(Point2::new(x + 2.0 + slant, h + r.int(0, 2) as f64 / 4.0));
        }
        ps.push(Point2::new(x + 3.0, 0.0));
    }
    let w = 4.0 * teeth as f64 - 1.0;
    ps.push(Point2::new(w, -2.0));
    if r.chance(1, 2) {
        ps.push(Point2::new(w / 2.0, -2.0 - r.int(0, 3) as f64 / 2.0));
    }
    ps.push(Point2::new(0.0, -2.0));
    ps.reverse();
    if area(&ps) < 0.0 {
        ps.reverse();
    }
    ps
}

/// a spiral band of unit width
fn spiral(r: &mut Rng) -> Vec<Point2> {
    let turns = if r.chance(1, 6) { r.int(9, 20) } else { r.int(3, 8) };
    let (mut outer, mut inner) = (vec![], vec![]);
    let (mut x, mut y) = (0i64, 0i64);
    let dirs = [(1, 0), (0, 1), (-1, 0), (0, -1)];
    outer.push((x, y));
    inner.push((x, y + 1));
    for i in 0..turns {
        let len = 2 * (i / 2 + 2);
        let (dx, dy) = dirs[i as usize % 4];
        x += dx * len;
        y += dy * len;
        let (nx, ny) = dirs[(i as usize + 1) % 4];
        if i + 1 < turns {
            // outer corner at (x, y), inner corner shifted back and inward
            outer.push((x, y));
            inner.push((x - dx + nx, y - dy + ny));
        } else {
            outer.push((x, y));
            inner.push((x + nx, y + ny));
        }
    }
    inner.reverse();
    let mut ps: Vec<Point2> = outer.into_iter().chain(inner).map(|(a, b)| Point2::new(a as f64, b as f64)).collect();
    if area(&ps) < 0.0 {
        ps.reverse();
    }
    ps
}

fn cross(o: Point2, a: Point2, b: Point2) -> f64 {
    (a - o).perp_dot(b - o)
}
/// is the polygon simple? (no two edges touch but neighbours at their vertex)
pub fn simple(ps: &[Point2]) -> bool {
    let n = ps.len();
    let on = |a: Point2, b: Point2, p: Point2| cross(a, b, p) == 0.0 && (p - a).dot(p - b) <= 0.0;
    for i in 0..n {
        let (a, b) = (ps[i], ps[(i + 1) % n]);
        if a == b {
            return false;
        }
        for j in i + 1..n {
            let (c, d) = (ps[j], ps[(j + 1) % n]);
            if (j + 1) % n == i {
                if on(a, b, c) || on(c, d, b) {
                    return false;
                }
                continue;
            }
            if j == i + 1 {
                if on(a, b, d) || on(c, d, a) {
                    return false;
                }
                continue;
            }
            if on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b) {
                return false;
            }
            if cross(a, b, c) * cross(a, b, d) < 0.0 && cross(c, d, a) * cross(c, d, b) < 0.0 {
                return false;
            }
        }
    }
    true
}

pub fn random_simple(r: &mut Rng) -> Vec<Point2> {
    loop {
        let mut ps = match r.below(4) {
            0 => comb(r),
            1 => spiral(r),
            _ => {
                let n = if r.chance(1, 6) { r.int(15, 40) } else { r.int(3, 14) } as usize;
                let mut ps = star(r, n);
                if area(&ps) < 0.0 {
                    ps.reverse();
                }
                ps
            }
        };
        // straight vertices: at dyadic fractions of an edge
        let straight = if r.chance(1, 6) { 16 } else { 3 };
        for _ in 0..r.below(straight) {
            let i = r.below(ps.len());
            let m = (ps[i] + ps[(i + 1) % ps.len()]) / 2.0;
            ps.insert(i + 1, m);
        }
        let k = r.below(ps.len());
        ps.rotate_left(k);
        if r.chance(1, 2) {
            ps.iter_mut().for_each(|p| *p = Point2::new(-p.y, p.x));
        }
        if simple(&ps) && area(&ps) > 0.1 {
            return ps;
        }
    }
}

/// some points in the middle of sides moved by a little: corners that hardly turn, and yet do
fn bent(r: &mut Rng, ps: &mut Vec<Point2>) {
    let before = ps.clone();
    let mut added = vec![];
    for _ in 0..r.int(1, 3) {
        let n = ps.len();
        let i = r.below(n);
        let (a, b) = (ps[i], ps[(i + 1) % n]);
        let d = b - a;
        // twice the area cut off, or added
        let gain = r.pick(&[0.5, 0.1, 0.03, 0.01, 0.003, 0.001]) * r.pick(&[1.0, -1.0]);
        let h = Point2::new(d.y, -d.x) * (gain / d.length_squared());
        let mut bent = ps.clone();
        bent.insert(i + 1, (a + b) / 2.0 + h);
        if d.length() > 4.0 && simple(&bent) {
            *ps = bent;
            added.push((a + b) / 2.0 + h);
        }
    }
    // nothing else is as good as in line with the points added
    let clear = |o: &Point2| {
        let others: Vec<Point2> = ps.iter().filter(|p| *p != o).copied().collect();
        (0..others.len()).all(|i| (0..i).all(|j| cross(*o, others[i], others[j]).abs() > 1e-4))
    };
    if !added.iter().all(clear) {
        *ps = before;
    }
}

/// a convex polygon, counter-clockwise
fn convex(r: &mut Rng) -> Vec<Point2> {
    let n = r.int(3, 24);
    let (a, b) = (r.range(1.0, 8.0), r.range(1.0, 8.0));
    let start = r.range(0.0, 6.0);
    (0..n)
        .map(|i| {
            let (s, c) = (start + (i as f64 + r.range(-0.3, 0.3)) / n as f64 * std::f64::consts::TAU).sin_cos();
            Point2::new(a * c, b * s)
        })
        .collect()
}

/// the library's tolerance is a fixed length, about 3e-4, so the unit cannot be arbitrary
pub fn unit(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => (2.0f64).powi(r.int(-3, -1) as i32),
        1 => (2.0f64).powi(r.int(1, 6) as i32),
        _ => 1.0,
    }
}

/// an edge of a loop in the plane, from its start to that of the next one:
/// straight, or on a circle with the center to its left or right
#[derive(Clone, Copy)]
pub struct Side {
    pub a: Point2,
    pub arc: Option<(Point2, f64, f64, f64)>,
}

fn at_angle(c: Point2, r: f64, t: f64) -> Point2 {
    c + Point2::new(t.cos(), t.sin()) * r
}

/// a polygon with some sides bulged in or out, free of crossings by a margin
pub fn bulged(r: &mut Rng, ps: &[Point2]) -> Vec<Side> {
    let n = ps.len();
    let mut sides: Vec<Side> = ps.iter().map(|p| Side { a: *p, arc: None }).collect();
    for i in 0..n {
        if !r.chance(1, 2) {
            continue;
        }
        let (a, b) = (ps[i], ps[(i + 1) % n]);
        // half the angle of the arc, positive: center to the left, counter-clockwise
        let h = r.range(0.3, 1.8) * r.pick(&[1.0, -1.0]);
        let d = b - a;
        let rad = d.length() / 2.0 / h.abs().sin();
        let c = (a + b) / 2.0 + Point2::new(-d.y, d.x) / 2.0 / h.tan();
        let t = (a - c).y.atan2((a - c).x);
        let old = sides[i];
        sides[i].arc = Some((c, rad, t, t + 2.0 * h));
        if !roomy(&sides) {
            sides[i] = old;
        }
    }
    sides
}

/// do the sides keep away from each other, and from a cusp at their corners?
fn roomy(sides: &[Side]) -> bool {
    let n = sides.len();
    let mut dense: Vec<(usize, Point2)> = vec![];
    for (i, s) in sides.iter().enumerate() {
        let b = sides[(i + 1) % n].a;
        for k in 0..24 {
            let q = match s.arc {
                Some((c, rad, t0, t1)) => at_angle(c, rad, t0 + (t1 - t0) * k as f64 / 24.0),
                None => s.a + (b - s.a) * (k as f64 / 24.0),
            };
            dense.push((i, q));
        }
    }
    let tangent = |i: usize, end: bool| match sides[i].arc {
        Some((_, _, t0, t1)) => {
            let t = if end { t1 } else { t0 };
            Point2::new(-t.sin(), t.cos()) * (t1 - t0).signum()
        }
        None => (sides[(i + 1) % n].a - sides[i].a).normalize(),
    };
    let size = dense.iter().map(|d| d.1.abs().max_element()).fold(0.0, f64::max);
    (0..n).all(|i| tangent((n + i - 1) % n, true).angle_between(tangent(i, false)).abs() < 2.6)
        && (0..dense.len()).all(|x| {
            (0..x).all(|y| {
                let (i, j) = (dense[x].0, dense[y].0);
                i == j || (i + 1) % n == j || (j + 1) % n == i || dense[x].1.distance(dense[y].1) > 0.12 * size
            })
        })
        && {
            // neighbours meet at their corner only
            let poly: Vec<Point2> = dense.iter().map(|d| d.1).collect();
            area(&poly) > 0.05 * size * size && simple(&poly)
        }
}

/// a loop of arcs of one circle
pub fn round(r: &mut Rng, c: Point2, rad: f64, ccw: bool) -> Vec<Side> {
    let n = r.int(1, 3) as usize;
    let start = r.range(0.0, 6.0);
    let turn = std::f64::consts::TAU * if ccw { 1.0 } else { -1.0 };
    (0..n)
        .map(|i| {
            let (t0, t1) = (start + turn * i as f64 / n as f64, start + turn * (i + 1) as f64 / n as f64);
            Side { a: at_angle(c, rad, t0), arc: Some((c, rad, t0, t1)) }
        })
        .collect()
}

/// one trim of the plane with loops of straight and round edges, as an event
pub fn outline(r: &mut Rng, f: &PlaneFrame, loops: &[Vec<Side>], size: f64) -> Ev {
    let axis = f.1.cross(f.2);
    let least = loops.iter().flatten().filter_map(|s| s.arc).map(|a| a.1).fold(size, f64::min);
    let tolerance = (size * r.pick(&[0.001, 0.005, 0.01])).min(least * 0.1);
    let mut bounds = vec![];
    for l in loops {
        let mut edges = vec![];
        for (i, s) in l.iter().enumerate() {
            let b = l[(i + 1) % l.len()].a;
            let (curve, range): (Box<dyn Curve>, (f64, f64)) = match s.arc {
                None => (AnyCurve::Line(f.at(s.a), f.at(b) - f.at(s.a)).boxed(), (0.0, 1.0)),
                Some((c, radius, t0, t1)) => {
                    let center = f.at(c);
                    if r.chance(1, 2) {
                        (Box::new(Circle { center, radius, axis, ref_dir: f.1 }), (t0, t1))
                    } else {
                        (Box::new(Circle { center, radius, axis: -axis, ref_dir: f.1 }), (-t0, -t1))
                    }
                }
            };
            edges.push(CurveSegment { curve, parameter_range: range, tolerance, parameter_division: 16 });
        }
        bounds.push(EdgeLoop { edges });
    }
    let js = list(loops, |l| {
        list(l, |s| match s.arc {
            None => format!("{{\"a\":{}}}", v2(s.a)),
            Some((c, rad, t0, t1)) => {
                let wide = if (t1 - t0).abs() > 6.2 { 0 } else { 1 };
                format!("{{\"a\":{},\"c\":{},\"r\":{},\"turn\":{}}}", v2(s.a), v2(c), f64s(rad), if t1 > t0 { wide } else { -wide })
            }
        })
    });
    let out = guard(|| f.plane().trim(&bounds));
    Ev::new("outline").raw("loops", &js).out(out, |e, m| e.v3s("vs", &m.vertices).raw("ts", &tris(&m.triangles)))
}

pub fn scaled(sides: &mut [Side], k: f64) {
    for s in sides {
        s.a = s.a * k;
        s.arc = s.arc.map(|(c, r, t0, t1)| (c * k, r * k, t0, t1));
    }
}

pub fn run(c: &mut Case) {
    let scn = c.scn.clone();
    let r = &mut c.rng;
    let f = PlaneFrame::any(r);
    let mut out = vec![f.ev()];
    if let Some(s) = scn {
        let k = r.pick(&[1.0, 0.25, 8.0]);
        let mut ps: Vec<Point2> = s[1..].chunks(2).map(|p| Point2::new(p[0] as f64, p[1] as f64) * k).collect();
        let turn = r.below(ps.len());
        ps.rotate_left(turn);
        out.push(trim(r, &f, &[ps.clone()]));
        if r.chance(1, 4) {
            let n = ps.len();
            let convex = (0..n).all(|i| cross(ps[i], ps[(i + 1) % n], ps[(i + 2) % n]) >= 0.0);
            if convex {
                ps.reverse();
                out.push(trim(r, &f, &[ps]));
            }
        }
    } else if r.chance(1, 12) {
        // a disk
        let (o, rad) = (Point2::new(r.coord(), r.coord()), r.int(4, 32) as f64 / 8.0);
        let n = r.int(1, 3);
        let start = r.range(0.0, 6.0);
        let cuts: Vec<f64> = (0..=n).map(|i| start + std::f64::consts::TAU * i as f64 / n as f64).collect();
        let edges = cuts
            .windows(2)
            .map(|w| {
                let axis = f.1.cross(f.2);
                let curve: Box<dyn Curve> = Box::new(Circle { center: f.at(o), radius: rad, axis, ref_dir: f.1 });
                CurveSegment { curve, parameter_range: (w[0], w[1]), tolerance: rad * 0.01, parameter_division: 16 }
            })
            .collect();
        let bounds = [EdgeLoop { edges }];
        let m = guard(|| f.plane().trim(&bounds));
        out.push(Ev::new("disk").v2("c", o).f("r", rad).out(m, |e, m| e.v3s("vs", &m.vertices).raw("ts", &tris(&m.triangles))));
    } else if r.chance(1, 4) {
        // straight and round edges
        let ps = loop {
            let mut ps = random_simple(r);
            if r.chance(1, 3) {
                ps = convex(r);
            }
            if ps.len() < 12 {
                break ps;
            }
        };
        let size = ps.iter().map(|p| p.abs().max_element()).fold(0.0, f64::max);
        let k = unit(r);
        let mut sides = bulged(r, &ps);
        scaled(&mut sides, k);
        out.push(outline(r, &f, &[sides], size * k));
    } else {
        for _ in 0..2 {
            let large = r.chance(1, 5);
            let mut ps = if r.chance(1, 6) { convex(r) } else { random_simple(r) };
            let size = ps.iter().map(|p| p.abs().max_element()).fold(0.0, f64::max);
            // not so large that rounding the points bends straight corners by more than the library ignores
            let k = if large { (2.0f64).powi((10.0 - size.log2()).floor() as i32 - r.int(0, 2) as i32) } else { unit(r) };
            ps.iter_mut().for_each(|p| *p = *p * k);
            if large {
                bent(r, &mut ps);
            }
            out.push(trim(r, &f, &[ps.clone()]));
            let n = ps.len();
            if (0..n).all(|i| cross(ps[i], ps[(i + 1) % n], ps[(i + 2) % n]) >= 0.0) {
                ps.reverse();
                out.push(trim(r, &f, &[ps]));
            }
        }
    }
    for e in out {
        c.ev(e);
    }
}
