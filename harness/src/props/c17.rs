//! C17: trimmed cylinders and B-spline surfaces.
use super::c14::{random_simple, simple};
use super::c15::{apart, face};
use super::c16::scenario;
use crate::gen::{AnyCurve, AnySurface, Rng};
use crate::rec::*;
use crate::Case;
use geom3d::curve::CurveSegment;
use geom3d::surface::*;
use geom3d::*;

/// an edge of a loop: for the library, and how to describe it
pub struct Edge {
    curve: AnyCurve,
    range: (f64, f64),
    json: String,
}

pub fn line(r: &mut Rng, a: Point3, b: Point3) -> Edge {
    let (curve, range) = match r.below(4) {
        0 => (AnyCurve::Line(b, a - b), (1.0, 0.0)),
        1 => (AnyCurve::Polyline(vec![a, b]), (0.0, 1.0)),
        2 => (AnyCurve::Bezier(vec![b, a]), (1.0, 0.0)),
        _ => (AnyCurve::Line(a, b - a), (0.0, 1.0)),
    };
    Edge { curve, range, json: format!("{{\"k\":\"line\",\"a\":{},\"b\":{}}}", v3(a), v3(b)) }
}

/// one pass along a seam, which is no boundary
fn seam(r: &mut Rng, a: Point3, b: Point3) -> Edge {
    Edge { json: String::new(), ..line(r, a, b) }
}

fn curved(k: &str, s: i64, curve: AnyCurve, range: (f64, f64)) -> Edge {
    let c = curve.boxed();
    let (a, b) = (c.get_point(range.0), c.get_point(range.1));
    Edge { curve, range, json: format!("{{\"k\":\"{}\",\"s\":{},\"a\":{},\"b\":{}}}", k, s, v3(a), v3(b)) }
}

pub struct Tube {
    pub o: Point3,
    pub axis: Vec3,
    pub x: Vec3,
    pub r: f64,
}

impl Tube {
    fn any(r: &mut Rng) -> Tube {
        let (x, _, axis) = r.frame();
        let radius = r.pick(&[0.125, 0.5, 1.0, 3.0, 12.0, 200.0]);
        Tube { o: r.d3(), axis, x, r: radius }
    }
    fn at(&self, z: f64, a: f64) -> Point3 {
        Cylinder { origin: self.o, axis: self.axis, ref_dir: self.x, radius: self.r }.get_point(z, a)
    }
    /// along the circle at height z from angle a to b
    fn arc(&self, r: &mut Rng, z: f64, a: f64, b: f64) -> Edge {
        let s = if b > a { 1 } else { -1 };
        let c = self.o + self.axis * z;
        if r.chance(1, 3) {
            // seen from the other side
            return curved("arc", s, AnyCurve::Circle(c, self.r, -self.axis, self.x), (-a, -b));
        }
        curved("arc", s, AnyCurve::Circle(c, self.r, self.axis, self.x), (a, b))
    }
    fn rect(&self, r: &mut Rng, z: (f64, f64), a: (f64, f64)) -> Vec<Edge> {
        let p = |z, a| self.at(z, a);
        let e1 = self.arc(r, z.0, a.0, a.1);
        let e2 = line(r, p(z.0, a.1), p(z.1, a.1));
        let e3 = self.arc(r, z.1, a.1, a.0);
        let e4 = line(r, p(z.1, a.0), p(z.0, a.0));
        vec![e1, e2, e3, e4]
    }
    fn ring(&self, r: &mut Rng, z: f64, start: f64, up: bool) -> Vec<Edge> {
        let n = r.int(1, 4);
        let t = std::f64::consts::TAU / n as f64 * if up { 1.0 } else { -1.0 };
        (0..n).map(|i| self.arc(r, z, start + t * i as f64, start + t * (i + 1) as f64)).collect()
    }
    fn path(&self, r: &mut Rng, ps: &[Point2]) -> Vec<Edge> {
        let n = ps.len();
        (0..n).map(|i| line(r, self.at(ps[i].y, ps[i].x), self.at(ps[(i + 1) % n].y, ps[(i + 1) % n].x))).collect()
    }
}

/// reverse the direction of loops of lines and curves
fn reverse(es: Vec<Edge>) -> Vec<Edge> {
    es.into_iter()
        .rev()
        .map(|e| {
            let c = e.curve.boxed();
            let (a, b) = (c.get_point(e.range.0), c.get_point(e.range.1));
            let range = (e.range.1, e.range.0);
            let json = if e.json.is_empty() {
                String::new()
            } else if e.json.contains("\"line\"") {
                format!("{{\"k\":\"line\",\"a\":{},\"b\":{}}}", v3(b), v3(a))
            } else {
                let k = e.json.split('"').nth(3).unwrap().to_string();
                let s = if e.json.contains("\"s\":-1") { 1 } else { -1 };
                format!("{{\"k\":\"{}\",\"s\":{},\"a\":{},\"b\":{}}}", k, s, v3(b), v3(a))
            };
            Edge { curve: e.curve, range, json }
        })
        .collect()
}

fn files() -> usize {
    std::fs::read_dir(".").map(|d| d.count()).unwrap_or(0)
}

pub fn trim(r: &mut Rng, surface: &AnySurface, mut loops: Vec<Vec<Edge>>, tol: f64, rough: i64) -> Ev {
    if r.chance(1, 2) {
        loops = loops.into_iter().map(reverse).collect();
    }
    if r.chance(1, 2) {
        r.shuffle(&mut loops);
    }
    for l in loops.iter_mut() {
        let k = r.below(l.len());
        l.rotate_left(k);
    }
    let mut json: Vec<String> = vec![];
    let has_seam = loops.iter().flatten().any(|e| e.json.is_empty());
    for l in &loops {
        let mut texts: Vec<String> = l.iter().map(|e| e.json.clone()).collect();
        if let Some(i) = texts.iter().position(|t| t.is_empty()) {
            texts.rotate_left(i + 1);
        }
        for part in texts.split(|t| t.is_empty()) {
            if !part.is_empty() {
                json.push(format!("[{}]", part.join(",")));
            }
        }
    }
    let bounds: Vec<EdgeLoop> = loops
        .iter()
        .map(|l| EdgeLoop {
            edges: l
                .iter()
                .map(|e| CurveSegment { curve: e.curve.boxed(), parameter_range: e.range, tolerance: tol, parameter_division: 16 })
                .collect(),
        })
        .collect();
    let before = files();
    let direct = r.chance(1, 2);
    let out = guard(|| {
        let surface = surface.boxed();
        if direct {
            surface.trim(&bounds)
        } else {
            TrimmedSurface { surface, bounds }.get_triangle_mesh()
        }
    });
    let written = files() as i64 - before as i64;
    Ev::new("trim")
        .raw("loops", &format!("[{}]", json.join(",")))
        .b("seam", has_seam)
        .n("rough", rough)
        .n("files", written)
        .out(out, |e, m| e.v3s("vs", &m.vertices).raw("ts", &tris(&m.triangles)))
}

/// put the loops into a box, lower left corner (x0, y0), no edge longer than h
fn fit(r: &mut Rng, loops: &[Vec<Point2>], lo: Point2, hi: Point2, h: f64) -> Vec<Vec<Point2>> {
    let (mut a, mut b) = (loops[0][0], loops[0][0]);
    for p in loops.iter().flatten() {
        a = a.min(*p);
        b = b.max(*p);
    }
    loops
        .iter()
        .map(|l| {
            let l: Vec<Point2> = l.iter().map(|p| lo + (*p - a) / (b - a) * (hi - lo)).collect();
            super::c16::refine(r, &l, h)
        })
        .collect()
}

/// are chords between points (angle, height) of a unit cylinder free of crossings?
fn ring_image_is_simple(ls: &[Vec<Point2>], low: f64, height: f64) -> bool {
    let image: Vec<Vec<Point2>> = ls
        .iter()
        .map(|l| l.iter().map(|p| Point2::new(p.x.cos(), p.x.sin()) * (2.0 * height / (2.0 * height - (p.y - low)))).collect())
        .collect();
    image.iter().all(|l| simple(l)) && (1..image.len()).all(|i| (0..i).all(|j| apart(&image[i], &image[j], 0.001)))
}

fn cylinder(c: &mut Case) -> Vec<Ev> {
    let scn = c.scn.clone();
    let r = &mut c.rng;
    let t = Tube::any(r);
    let s = AnySurface::Cylinder(t.o, t.axis, t.x, t.r);
    let mut out = vec![Ev::new("surface").raw("f", &s.json())];
    let z0 = match r.below(4) {
        0 => 0.0,
        1 => r.int(1, 40) as f64 / 4.0,
        2 => -r.int(1, 80) as f64 / 4.0,
        _ => r.range(-50.0, 50.0),
    };
    let height = t.r * r.pick(&[0.25, 0.5, 1.0, 3.0, 8.0, 20.0]);
    let (z1, a0) = (z0 + height, r.angle());
    let tol = t.r.min(2.0 * height) * r.pick(&[0.04, 0.02, 0.01]);
    let kind = if scn.is_some() { 3 } else { r.below(6) };
    let width = r.pick(&[0.7, 1.6, 3.1, 4.5, 5.8]);
    let loops: Vec<Vec<Edge>> = match kind {
        0 => vec![t.rect(r, (z0, z1), (a0, a0 + width))],
        1 => {
            // with a window or two
            let mut ls = vec![t.rect(r, (z0, z1), (a0, a0 + width))];
            let n = if r.chance(1, 5) { r.int(3, 5) } else { r.int(1, 2) };
            for i in 0..n {
                let w = width / n as f64;
                let b = a0 + w * i as f64;
                let zs = (z0 + height * r.range(0.1, 0.4), z0 + height * r.range(0.5, 0.9));
                let angles = (b + w * r.range(0.1, 0.4), b + w * r.range(0.5, 0.9));
                ls.push(reverse(t.rect(r, zs, angles)));
            }
            ls
        }
        2 => {
            // all the way round
            let start = r.angle();
            let mut ls = vec![t.ring(r, z0, a0, true), t.ring(r, z1, start, false)];
            for i in 0..r.below(3) {
                let b = a0 + 2.0 * i as f64;
                let zs = (z0 + height * r.range(0.15, 0.4), z0 + height * r.range(0.5, 0.85));
                let end = b + r.range(0.2, 1.5);
                ls.push(reverse(t.rect(r, zs, (b, end))));
            }
            ls
        }
        5 => {
            // all the way round in one loop with a seam
            let mut es = t.ring(r, z0, a0, true);
            es.push(seam(r, t.at(z0, a0), t.at(z1, a0)));
            es.extend(t.ring(r, z1, a0, false));
            es.push(seam(r, t.at(z1, a0), t.at(z0, a0)));
            let mut ls = vec![es];
            for i in 0..r.below(3) {
                let b = a0 + 0.3 + 2.0 * i as f64;
                let zs = (z0 + height * r.range(0.15, 0.4), z0 + height * r.range(0.5, 0.85));
                let end = b + r.range(0.2, 1.5);
                ls.push(reverse(t.rect(r, zs, (b, end))));
            }
            ls
        }
        _ => {
            let shape = match scn {
                Some(s) => scenario(&s, 1.0),
                None => {
                    if r.chance(1, 2) {
                        vec![random_simple(r)]
                    } else {
                        face(r)
                    }
                }
            };
            // angles are refined, heights scaled the same way; the chords must keep the shape
            let mut h = 0.15 + 0.05 * width;
            let mut ls;
            let mut tries = 0;
            loop {
                ls = fit(r, &shape, Point2::new(a0, 0.0), Point2::new(a0 + width, height / t.r), h);
                if ring_image_is_simple(&ls, 0.0, height / t.r) && ring_image_is_simple(&ls, -0.3 * height / t.r, 1.5 * height / t.r) {
                    break;
                }
                h *= 0.6;
                tries += 1;
                if tries == 4 {
                    let square = vec![vec![Point2::ZERO, Point2::X, Point2::ONE, Point2::Y]];
                    ls = fit(r, &square, Point2::new(a0, 0.0), Point2::new(a0 + width, height / t.r), 0.3);
                    break;
                }
            }
            ls.iter_mut().flatten().for_each(|p| p.y = z0 + p.y * t.r);
            let mut ls: Vec<Vec<Edge>> = ls.iter().map(|l| t.path(r, l)).collect();
            if kind == 4 && width < 5.0 {
                // the same shape as a hole in a band
                ls.truncate(1);
                ls = ls.into_iter().map(reverse).collect();
                let (low, high) = (z0 - 0.3 * height, z1 + 0.2 * height);
                ls.push(t.ring(r, low, a0, true));
                ls.push(t.ring(r, high, a0 + 0.5, false));
            }
            ls
        }
    };
    out.push(trim(r, &s, loops, tol, 1));
    out
}

fn greville(t: &[f64], p: usize, n: usize) -> Vec<f64> {
    (0..n).map(|i| t[i + 1..i + p + 1].iter().sum::<f64>() / p as f64).collect()
}

fn graph(c: &mut Case) -> Vec<Ev> {
    let scn = c.scn.clone();
    let r = &mut c.rng;
    let (p, q) = if r.chance(1, 8) { (r.int(3, 5) as usize, r.int(2, 4) as usize) } else { (r.int(2, 3) as usize, r.int(1, 3) as usize) };
    let (n, m) = (p + 1 + r.below(3), q + 1 + r.below(3));
    let knots = |r: &mut Rng, p: usize, n: usize| {
        let mut ks = vec![0.0; p + 1];
        let mut t = 0.0;
        for _ in p + 1..n {
            t += r.pick(&[2.0, 3.0]);
            ks.push(t);
        }
        t += 3.0;
        ks.extend(vec![t; p + 1]);
        ks
    };
    let (ku, kv) = (knots(r, p, n), knots(r, q, m));
    let (gu, gv) = (greville(&ku, p, n), greville(&kv, q, m));
    let (x, y, z) = r.frame();
    let o = r.d3();
    let bump = r.pick(&[0.0, 0.3, 0.8]);
    let mut net = vec![];
    for i in 0..n {
        for j in 0..m {
            net.push(o + x * gu[i] + y * gv[j] + z * (bump * r.int(-4, 4) as f64 / 4.0));
        }
    }
    let (us, vs) = (*ku.last().unwrap(), *kv.last().unwrap());
    let s = AnySurface::BSpline((p, q), (ku.clone(), kv.clone()), m, net.clone());
    let mut out = vec![Ev::new("surface").raw("f", &s.json()).v3("o", o).v3("x", x).v3("y", y)];
    let b = s.boxed();
    let kind = if scn.is_some() { 1 } else { r.below(3) };
    let h = us.max(vs) / r.pick(&[6.0, 10.0]);
    let mut loops: Vec<Vec<Edge>> = vec![];
    let path = |r: &mut Rng, ps: &[Point2]| -> Vec<Edge> {
        let k = ps.len();
        (0..k)
            .map(|i| {
                let (c, d) = (ps[i], ps[(i + 1) % k]);
                line(r, b.get_point(c.x, c.y), b.get_point(d.x, d.y))
            })
            .collect()
    };
    let shape = match scn {
        Some(s) => scenario(&s, 1.0),
        None => {
            if r.chance(1, 2) {
                vec![random_simple(r)]
            } else {
                face(r)
            }
        }
    };
    if kind == 0 {
        // the natural boundary, with a hole in the middle or not
        let row = |i: usize| AnyCurve::BSpline(q, kv.clone(), net[i * m..(i + 1) * m].to_vec());
        let col = |j: usize| AnyCurve::BSpline(p, ku.clone(), (0..n).map(|i| net[i * m + j]).collect());
        loops.push(vec![
            curved("v", 1, col(0), (0.0, us)),
            curved("u", 1, row(n - 1), (0.0, vs)),
            curved("v", -1, col(m - 1), (us, 0.0)),
            curved("u", -1, row(0), (vs, 0.0)),
        ]);
        if r.chance(1, 2) {
            let inner = fit(r, &shape[..1], Point2::new(us * 0.2, vs * 0.3), Point2::new(us * 0.8, vs * 0.7), h);
            loops.push(reverse(path(r, &inner[0])));
        }
    } else {
        let (fx, fy) = (r.range(0.0, 0.3), r.range(0.0, 0.3));
        for l in fit(r, &shape, Point2::new(us * fx, vs * fy), Point2::new(us * (1.0 - fy), vs * (1.0 - fx)), h) {
            loops.push(path(r, &l));
        }
    }
    out.push(trim(r, &s, loops, 0.02, 2000));
    out
}

pub fn run(c: &mut Case) {
    let out = if c.rng.chance(1, 2) { cylinder(c) } else { graph(c) };
    for e in out {
        c.ev(e);
    }
}
