//! C25: solids read from STEP files and saved as OBJ and STL.
use super::c14::{bulged, random_simple, round, scaled, Side};
use super::c15::{face, round_face};
use super::step::*;
use crate::gen::Rng;
use crate::rec::*;
use crate::Case;
use geom3d::*;
use std::f64::consts::*;

/// from vertex a to vertex b; round ones have a center, a unit vector they turn about
/// counter-clockwise (u towards a, v), a radius and the angle of b (a is at 0)
#[derive(Clone)]
struct Edge {
    a: usize,
    b: usize,
    arc: Option<(Point3, Vec3, Vec3, f64, f64)>,
}

#[derive(Clone)]
enum Carrier {
    /// outward normal
    Plane(Vec3),
    /// a point of the axis, its direction, radius; is the material inside?
    Cylinder(Point3, Vec3, f64, bool),
}

/// loops of edges and whether they are followed from a to b, counter-clockwise seen from outside
#[derive(Clone)]
struct Wall {
    carrier: Carrier,
    loops: Vec<Vec<(usize, bool)>>,
}

#[derive(Default, Clone)]
struct Solid {
    vs: Vec<Point3>,
    /// where straight edges have inner points
    marks: Vec<Point3>,
    edges: Vec<Edge>,
    walls: Vec<Wall>,
    /// planes that are not along it are perpendicular to it, if there is anything round
    axis: Vec3,
}

fn forward(es: &[usize]) -> Vec<(usize, bool)> {
    es.iter().map(|e| (*e, true)).collect()
}
fn backward(es: &[usize]) -> Vec<(usize, bool)> {
    es.iter().rev().map(|e| (*e, false)).collect()
}

#[derive(Clone, Copy)]
struct Frame {
    o: Point3,
    x: Vec3,
    y: Vec3,
    z: Vec3,
}

/// where a loop is drawn: height and, for solids without arcs, a homothety of the plane
#[derive(Clone, Copy)]
struct Level {
    h: f64,
    scale: f64,
    shift: Point2,
}
fn level(h: f64) -> Level {
    Level { h, scale: 1.0, shift: Point2::ZERO }
}

impl Frame {
    fn at(&self, p: Point2, l: Level) -> Point3 {
        let p = p * l.scale + l.shift;
        self.o + self.x * p.x + self.y * p.y + self.z * l.h
    }
}

impl Solid {
    fn vertex(&mut self, p: Point3) -> usize {
        self.vs.push(p);
        self.vs.len() - 1
    }
    fn edge(&mut self, a: usize, b: usize) -> usize {
        self.edges.push(Edge { a, b, arc: None });
        self.edges.len() - 1
    }
    /// the edges of a loop at a level
    fn ring(&mut self, f: Frame, l: &[Side], at: Level) -> Vec<usize> {
        let vs: Vec<usize> = l.iter().map(|s| self.vertex(f.at(s.a, at))).collect();
        (0..l.len())
            .map(|i| {
                let e = self.edge(vs[i], vs[(i + 1) % vs.len()]);
                self.edges[e].arc = l[i].arc.map(|(c, r, t0, t1)| {
                    let u = f.x * t0.cos() + f.y * t0.sin();
                    let v = (f.y * t0.cos() - f.x * t0.sin()) * (t1 - t0).signum();
                    (f.at(c, at), u, v, r, (t1 - t0).abs())
                });
                e
            })
            .collect()
    }
    /// the walls between two rings of the same loop, material to its left, the second one above
    fn walls(&mut self, f: Frame, l: &[Side], low: &[usize], high: &[usize], r: &mut Rng) {
        let n = l.len();
        if n == 1 {
            let (c, rad, t0, t1) = l[0].arc.unwrap();
            let carrier = Carrier::Cylinder(f.at(c, level(0.0)), f.z, rad, t1 > t0);
            let loops = if r.chance(1, 2) {
                let seam = self.edge(self.edges[low[0]].a, self.edges[high[0]].a);
                vec![vec![(low[0], true), (seam, true), (high[0], false), (seam, false)]]
            } else {
                vec![forward(low), backward(high)]
            };
            self.walls.push(Wall { carrier, loops });
            return;
        }
        let ups: Vec<usize> = (0..n)
            .map(|i| {
                let (a, b) = (self.edges[low[i]].a, self.edges[high[i]].a);
                self.edge(a, b)
            })
            .collect();
        for i in 0..n {
            let j = (i + 1) % n;
            let carrier = match l[i].arc {
                Some((c, rad, t0, t1)) => Carrier::Cylinder(f.at(c, level(0.0)), f.z, rad, t1 > t0),
                None => {
                    let (p, q) = (self.vs[self.edges[low[i]].a], self.vs[self.edges[low[i]].b]);
                    let t = self.vs[self.edges[high[i]].a];
                    Carrier::Plane((q - p).cross(t - p).normalize())
                }
            };
            self.walls.push(Wall { carrier, loops: vec![vec![(low[i], true), (ups[j], true), (high[i], false), (ups[i], false)]] });
        }
    }
    fn cap(&mut self, n: Vec3, loops: Vec<Vec<(usize, bool)>>) {
        self.walls.push(Wall { carrier: Carrier::Plane(n), loops });
    }
    fn joined(mut self, other: Solid) -> Solid {
        let (v, e) = (self.vs.len(), self.edges.len());
        self.vs.extend(other.vs);
        self.edges.extend(other.edges.into_iter().map(|x| Edge { a: x.a + v, b: x.b + v, arc: x.arc }));
        self.walls.extend(other.walls.into_iter().map(|w| Wall {
            carrier: w.carrier,
            loops: w.loops.into_iter().map(|l| l.into_iter().map(|(i, d)| (i + e, d)).collect()).collect(),
        }));
        self
    }
    /// the same as a hole in something
    fn inverted(mut self) -> Solid {
        for w in &mut self.walls {
            w.carrier = match &w.carrier {
                Carrier::Plane(n) => Carrier::Plane(-*n),
                Carrier::Cylinder(o, a, r, inside) => Carrier::Cylinder(*o, *a, *r, !*inside),
            };
            for l in &mut w.loops {
                l.reverse();
                l.iter_mut().for_each(|x| x.1 = !x.1);
            }
        }
        self
    }
}

fn straight(ps: &[Point2]) -> Vec<Side> {
    ps.iter().map(|p| Side { a: *p, arc: None }).collect()
}
fn turned(l: &[Side]) -> Vec<Side> {
    let n = l.len();
    (0..n).rev().map(|i| Side { a: l[(i + 1) % n].a, arc: l[i].arc.map(|(c, r, t0, t1)| (c, r, t1, t0)) }).collect()
}

/// an outline and what is in it, clockwise
fn loops(r: &mut Rng) -> Vec<Vec<Side>> {
    loop {
        let mut ls: Vec<Vec<Side>> = match r.below(6) {
            0 => vec![straight(&random_simple(r))],
            5 => {
                // sides in line that face opposite ways
                let t = r.pick(&[0.0, 0.0, 0.4]);
                let s: &[(f64, f64)] = r.pick(&[&[(0.0, 0.0), (2.0, 0.0), (2.0, 1.0), (3.0, 1.0), (3.0, 2.0), (1.0, 2.0), (1.0, 1.0), (0.0, 1.0)][..], &[(0.0, 0.0), (4.0, 0.0), (4.0, 2.0), (3.0, 2.0), (3.0, 1.0), (2.0, 1.0), (2.0, 2.0), (2.0, 3.0), (1.0, 3.0), (1.0, 2.0), (0.0, 2.0)][..]]);
                vec![straight(&s.iter().map(|(x, y)| Point2::new(x + t * y, *y)).collect::<Vec<_>>())]
            }
            1 => {
                let ps = random_simple(r);
                vec![bulged(r, &ps)]
            }
            2 => {
                let rad = r.range(0.4, 4.0);
                let c = Point2::new(r.range(-2.0, 2.0), 1.0);
                let mut ls = vec![round(r, c, rad, true)];
                if r.chance(1, 2) {
                    // a tube
                    if rad > 1.0 {
                        ls.push(round(r, c, rad * 0.5, false));
                    }
                }
                ls
            }
            3 => face(r).iter().map(|l| straight(l)).collect(),
            _ => round_face(r),
        };
        let k = r.pick(&[1.0, 1.0, 0.5, 2.0, 8.0]);
        ls.iter_mut().for_each(|l| scaled(l, k));
        let count: usize = ls.iter().map(|l| l.len()).sum();
        if count > 40 || (count > 16 && r.chance(3, 4)) {
            continue;
        }
        if ls.iter().flatten().filter_map(|s| s.arc).any(|a| a.1 < 0.3 || a.1 > 40.0) {
            continue;
        }
        // the larger an arc the finer it is divided, and the wall with it
        let load: f64 = ls.iter().flatten().filter_map(|s| s.arc).map(|a| (a.3 - a.2).abs() * a.1).sum();
        if load > r.pick(&[6.0, 6.0, 6.0, 12.0, 12.0, 40.0]) {
            continue;
        }
        return ls;
    }
}

fn extrusion(r: &mut Rng, f: Frame, ls: &[Vec<Side>]) -> Solid {
    let mut s = Solid { axis: f.z, ..Default::default() };
    let is_round = ls.iter().flatten().any(|s| s.arc.is_some());
    let size = ls[0].iter().map(|s| s.a.abs().max_element()).fold(0.5, f64::max);
    let h = size * r.pick(&[0.2, 0.5, 1.0, 3.0]);
    let base = r.pick(&[0.0, 0.0, -1.0, 5.0]);
    let (low, mut high) = (level(base), level(base + h));
    let tapered = !is_round && r.chance(1, 2);
    if tapered {
        high.scale = r.pick(&[0.3, 0.8, 1.0, 1.5]);
        high.shift = Point2::new(r.range(-1.0, 1.0), r.range(-1.0, 1.0)) * size;
        if ls.len() == 1 && r.chance(1, 3) {
            // up to a point
            let ring = s.ring(f, &ls[0], low);
            let apex = s.vertex(f.at(Point2::ZERO, high));
            let n = ring.len();
            let ups: Vec<usize> = ring.iter().map(|e| s.edges[*e].a).collect::<Vec<_>>().into_iter().map(|a| s.edge(a, apex)).collect();
            for i in 0..n {
                let (p, q) = (s.vs[s.edges[ring[i]].a], s.vs[s.edges[ring[i]].b]);
                let normal = (q - p).cross(s.vs[apex] - p).normalize();
                s.cap(normal, vec![vec![(ring[i], true), (ups[(i + 1) % n], true), (ups[i], false)]]);
            }
            s.cap(-f.z, vec![backward(&ring)]);
            return s;
        }
    }
    let mut bottom = vec![];
    let mut top = vec![];
    for (i, l) in ls.iter().enumerate() {
        let depth = h * r.range(0.2, 0.8);
        match if i == 0 || tapered { 0 } else { r.below(4) } {
            0 => {
                let (a, b) = (s.ring(f, l, low), s.ring(f, l, high));
                s.walls(f, l, &a, &b, r);
                bottom.push(backward(&a));
                top.push(forward(&b));
            }
            1 => {
                // a pocket
                let (a, b) = (s.ring(f, l, level(high.h - depth)), s.ring(f, l, high));
                s.walls(f, l, &a, &b, r);
                s.cap(f.z, vec![backward(&a)]);
                top.push(forward(&b));
            }
            2 => {
                // a pocket from below
                let (a, b) = (s.ring(f, l, low), s.ring(f, l, level(low.h + depth)));
                s.walls(f, l, &a, &b, r);
                s.cap(-f.z, vec![forward(&b)]);
                bottom.push(backward(&a));
            }
            _ => {
                // a boss
                let l = turned(l);
                let (a, b) = (s.ring(f, &l, high), s.ring(f, &l, level(high.h + depth)));
                s.walls(f, &l, &a, &b, r);
                s.cap(f.z, vec![forward(&b)]);
                top.push(backward(&a));
            }
        }
    }
    s.cap(-f.z, bottom);
    s.cap(f.z, top);
    s
}

/// the vertices and faces of MCSolid's solids
fn polyhedron(r: &mut Rng, kind: i64) -> (Vec<Point3>, Vec<Vec<usize>>) {
    let (x, y, z) = r.frame();
    let k = r.pick(&[1.0, 0.25, 20.0]);
    let at = |a: f64, b: f64, c: f64| (x * a + y * b + z * c) * k;
    let skew = r.range(-0.5, 0.5);
    if kind == 0 {
        (vec![at(0.0, 0.0, 0.0), at(2.0, 0.0, 0.0), at(0.5, 2.0, 0.0), at(1.0, skew, 1.5)], vec![vec![1, 3, 2], vec![1, 2, 4], vec![2, 3, 4], vec![3, 1, 4]])
    } else {
        let mut vs: Vec<Point3> = vec![at(0.0, 0.0, 0.0), at(2.0, 0.0, 0.0), at(0.5, 2.0, 0.0)];
        let up = at(skew, 0.3, 1.0);
        for i in 0..3 {
            vs.push(vs[i] + up);
        }
        (vs, vec![vec![1, 3, 2], vec![4, 5, 6], vec![1, 2, 5, 4], vec![2, 3, 6, 5], vec![3, 1, 4, 6]])
    }
}

/// the curve of an edge and whether its parameter grows from a to b
fn curve_of(r: &mut Rng, s: &mut Solid, e: usize) -> (StepCurve, bool) {
    let along = r.chance(1, 2);
    let edge = s.edges[e].clone();
    let (a, b) = (s.vs[edge.a], s.vs[edge.b]);
    match edge.arc {
        None => {
            let (p, q) = if along { (a, b) } else { (b, a) };
            if r.chance(1, 10) {
                let mut ps = vec![p];
                for i in 1..=r.below(3) {
                    let m = p.lerp(q, i as f64 / 3.0);
                    s.marks.push(m);
                    ps.push(m);
                }
                ps.push(q);
                return (StepCurve::Polyline(ps), along);
            }
            let d = (q - p).normalize();
            let m = r.pick(&[1.0, 1.0, 0.5, 7.0]);
            let k = r.pick(&[1.0, 1.0, 0.01, 300.0]);
            let back = r.pick(&[0.0, 0.0, -2.5, 4.0]);
            (StepCurve::Line(p - d * back, d * k, m), along)
        }
        Some((c, u, v, rad, t)) => {
            let n = u.cross(v);
            let phi = match r.below(3) {
                0 => 0.0,
                1 => -r.range(0.0, 0.5) * (TAU - t).max(0.1),
                _ => r.range(0.0, TAU),
            };
            let lean = r.pick(&[0.0, 0.0, 1.5]);
            let x = (u * phi.cos() + v * phi.sin() + n * lean) * r.pick(&[1.0, 2.5]);
            let axis = (if along { n } else { -n }) * r.pick(&[1.0, 1.0, 30.0]);
            (StepCurve::Circle(Placement { o: c, axis: Some(axis), x: Some(x) }, rad), along)
        }
    }
}

/// which edges are stored from b to a, which bounds are listed backwards
struct Flags {
    edges: Vec<bool>,
    bounds: Vec<bool>,
}

/// writes the file; the entities of the faces, and the description for the specification
fn write(r: &mut Rng, file: &mut File, s: &mut Solid, flags: &Flags) -> (Vec<usize>, Ev) {
    let vertices: Vec<usize> = s
        .vs
        .clone()
        .into_iter()
        .map(|p| {
            let p = file.point(r, p);
            file.new_entity(format!("VERTEX_POINT('',@{}@)", p))
        })
        .collect();
    let share = r.chance(1, 2);
    let mut known = vec![];
    let mut circles = vec![];
    let mut edge_js = vec![];
    let mut ids = vec![];
    for i in 0..s.edges.len() {
        let rev = flags.edges[i];
        // other edges may lie on the same curve
        let (p, q) = (s.vs[s.edges[i].a], s.vs[s.edges[i].b]);
        let arc = s.edges[i].arc;
        let shared = known.iter().filter(|_| share).find_map(|(curve, id): &(StepCurve, usize)| match (curve, arc) {
            (StepCurve::Line(o, d, _), None) => {
                let d = d.normalize();
                let on = [p, q].iter().all(|v| (*v - *o).cross(d).length() < 1e-12 * (1.0 + (*v - *o).length()));
                on.then(|| (*id, d.dot(q - p) > 0.0))
            }
            (StepCurve::Circle(pl, rad), Some((o, u, v, radius, _))) => {
                let n = u.cross(v);
                let axis = pl.axis.unwrap().normalize();
                (pl.o == o && *rad == radius && axis.cross(n).length() < 1e-12).then(|| (*id, axis.dot(n) > 0.0))
            }
            _ => None,
        });
        let (g, along) = match shared {
            Some(found) => found,
            None => {
                let (curve, along) = curve_of(r, s, i);
                let g = file.curve(r, &curve);
                known.push((curve, g));
                (g, along)
            }
        };
        let e = &s.edges[i];
        let (a, b) = if rev { (e.b, e.a) } else { (e.a, e.b) };
        ids.push(file.new_entity(format!("EDGE_CURVE('',@{}@,@{}@,@{}@,{})", vertices[a], vertices[b], g, tf(along != rev))));
        let mut c = 0;
        let mut t = (0.0, 0.0);
        if let Some((o, u, v, rad, sweep)) = e.arc {
            circles.push(format!("{{\"kind\":\"circle\",\"o\":{},\"axis\":{},\"x\":{},\"r\":{}}}", v3(o), v3(u.cross(v)), v3(u), f64s(rad)));
            c = circles.len();
            t = if rev { (sweep, 0.0) } else { (0.0, sweep) };
        }
        edge_js.push(format!("{{\"s\":{},\"e\":{},\"c\":{},\"t0\":{},\"t1\":{}}}", a + 1, b + 1, c, f64s(t.0), f64s(t.1)));
    }
    let mut face_js = vec![];
    let mut faces = vec![];
    let mut next = 0;
    let mut carriers = vec![];
    for w in s.walls.clone() {
        let at = s.vs[s.edges[w.loops[0][0].0].a];
        let mut bounds = vec![];
        let outer = r.chance(2, 3);
        for (k, l) in w.loops.iter().enumerate() {
            let flag = flags.bounds[next];
            next += 1;
            let mut walk = l.clone();
            let turn = r.below(walk.len());
            walk.rotate_left(turn);
            if !flag {
                walk = walk.into_iter().rev().map(|(i, d)| (i, !d)).collect();
            }
            let mut es = vec![];
            let mut js = vec![];
            for (i, d) in walk {
                let o = d != flags.edges[i];
                es.push(file.new_entity(format!("ORIENTED_EDGE('',*,*,@{}@,{})", ids[i], tf(o))));
                js.push(format!("{{\"e\":{},\"o\":{}}}", i + 1, o));
            }
            let el = file.new_entity(format!("EDGE_LOOP('',({}))", refs(&es)));
            let name = if outer && k == 0 { "FACE_OUTER_BOUND" } else { "FACE_BOUND" };
            let id = file.new_entity(format!("{}('',@{}@,{})", name, el, tf(flag)));
            bounds.push((id, format!("{{\"flag\":{},\"edges\":[{}]}}", flag, js.join(","))));
        }
        r.shuffle(&mut bounds);
        let first = &s.edges[w.loops[0][0].0];
        let (surface, sense) = match &w.carrier {
            Carrier::Plane(n) => {
                let sense = r.chance(1, 2);
                let side = s.vs[first.b] - s.vs[first.a];
                let x = if side.length() > 0.0 && r.chance(1, 2) { side } else { n.any_orthonormal_vector() };
                let y = n.cross(x);
                let o = s.vs[first.a] + x * r.pick(&[0.0, 0.0, 1.5]) + y * r.pick(&[0.0, -0.5]);
                let axis = if sense { *n } else { -*n };
                let x = x * r.pick(&[1.0, -1.0]) + *n * r.pick(&[0.0, 0.0, 0.7]);
                (StepSurface::Plane(Placement { o, axis: Some(axis * r.pick(&[1.0, 0.02])), x: Some(x) }), sense)
            }
            Carrier::Cylinder(o, axis, rad, inside) => {
                let (x, y) = axis.any_orthonormal_pair();
                let phi = r.range(0.0, TAU);
                let x = x * phi.cos() + y * phi.sin();
                let o = *o + *axis * r.pick(&[0.0, 0.0, -7.0, 2.5]);
                let axis = *axis * r.pick(&[1.0, -1.0, 3.0]);
                (StepSurface::Cylinder(Placement { o, axis: Some(axis), x: Some(x) }, *rad), *inside)
            }
        };
        // other faces may lie on the same surface
        let shared = carriers.iter().filter(|_| share).find_map(|(s, c, id): &(StepSurface, Carrier, usize)| match (s, c, &w.carrier) {
            (StepSurface::Plane(pl), Carrier::Plane(_), Carrier::Plane(n)) => {
                let axis = pl.axis.unwrap().normalize();
                (axis.cross(*n).length() < 1e-12 && (at - pl.o).dot(axis).abs() < 1e-12 * (1.0 + (at - pl.o).length())).then(|| (*id, axis.dot(*n) > 0.0))
            }
            (_, Carrier::Cylinder(o, axis, rad, _), Carrier::Cylinder(o2, axis2, rad2, inside)) => {
                (axis.cross(*axis2).length() < 1e-12 && rad == rad2 && (*o2 - *o).cross(*axis).length() < 1e-12).then(|| (*id, *inside))
            }
            _ => None,
        });
        let (g, sense) = match shared {
            Some(found) => found,
            None => {
                let g = file.surface(r, &surface);
                carriers.push((surface, w.carrier.clone(), g));
                (g, sense)
            }
        };
        let list_: Vec<usize> = bounds.iter().map(|b| b.0).collect();
        faces.push(file.new_entity(format!("ADVANCED_FACE('',({}),@{}@,{})", refs(&list_), g, tf(sense))));
        let plane = matches!(w.carrier, Carrier::Plane(_));
        let bs: Vec<String> = bounds.into_iter().map(|b| b.1).collect();
        face_js.push(format!("{{\"plane\":{},\"bounds\":[{}]}}", plane, bs.join(",")));
    }
    let e = Ev::new("solid")
        .v3s("vs", &s.vs)
        .v3s("marks", &s.marks)
        .raw("edges", &format!("[{}]", edge_js.join(",")))
        .raw("circles", &format!("[{}]", circles.join(",")))
        .raw("faces", &format!("[{}]", face_js.join(",")))
        .v3("axis", s.axis);
    (faces, e)
}

/// vertices and triangles of an OBJ file, or what is wrong with it
fn obj(text: &str) -> Result<(Vec<Point3>, Vec<u32>), String> {
    let (mut vs, mut ts) = (vec![], vec![]);
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first() {
            Some(&"v") => {
                let c: Vec<f64> = w[1..].iter().filter_map(|x| x.parse().ok()).collect();
                if c.len() != 3 {
                    return Err(format!("not a vertex: {}", l));
                }
                vs.push(Point3::new(c[0], c[1], c[2]));
            }
            Some(&"f") => {
                let c: Vec<u32> = w[1..].iter().filter_map(|x| x.split('/').next().unwrap().parse().ok()).collect();
                if c.len() != 3 || c.iter().any(|i| *i == 0) {
                    return Err(format!("not a triangle: {}", l));
                }
                ts.extend(c.iter().map(|i| i - 1));
            }
            _ => {}
        }
    }
    if ts.iter().any(|t| *t as usize >= vs.len()) {
        return Err("a triangle of vertices that are not in the file".into());
    }
    Ok((vs, ts))
}

fn stl(bytes: &[u8]) -> Result<(Vec<Point3>, Vec<u32>), String> {
    let n = bytes.get(80..84).map(|b| u32::from_le_bytes(b.try_into().unwrap())).ok_or("no header")? as usize;
    if bytes.len() != 84 + 50 * n {
        return Err("the count does not match the size of the file".into());
    }
    let mut vs: Vec<Point3> = vec![];
    let mut ts = vec![];
    let mut at = std::collections::HashMap::new();
    for k in 0..n {
        for c in 1..4 {
            let x = |i: usize| {
                let s = 84 + 50 * k + 12 * c + 4 * i;
                f32::from_le_bytes(bytes[s..s + 4].try_into().unwrap()) as f64
            };
            let p = Point3::new(x(0), x(1), x(2));
            let key = (p.x.to_bits(), p.y.to_bits(), p.z.to_bits());
            ts.push(*at.entry(key).or_insert_with(|| {
                vs.push(p);
                vs.len() as u32 - 1
            }));
        }
    }
    Ok((vs, ts))
}

pub fn run(c: &mut Case) {
    let scn = c.scn.clone();
    let r = &mut c.rng;
    let (x, y, z) = r.frame();
    let f = Frame { o: if r.chance(1, 3) { Point3::ZERO } else { r.d3() }, x, y, z };
    let mut s;
    let mut flags = None;
    if let Some(k) = &scn {
        // which solid, then the edges stored backwards in the order they are met, then the bounds
        let (vs, faces) = polyhedron(r, k[0]);
        s = Solid { vs, ..Default::default() };
        for l in &faces {
            let n = l.len();
            let mut es = vec![];
            for i in 0..n {
                let (a, b) = (l[i] - 1, l[(i + 1) % n] - 1);
                let known = s.edges.iter().position(|e| e.a == b && e.b == a);
                es.push(known.map(|e| (e, false)).unwrap_or_else(|| (s.edge(a, b), true)));
            }
            let p: Vec<Point3> = l.iter().map(|i| s.vs[i - 1]).collect();
            s.cap((p[1] - p[0]).cross(p[2] - p[0]).normalize(), vec![es]);
        }
        let m = s.edges.len();
        flags = Some(Flags { edges: k[1..=m].iter().map(|b| *b == 1).collect(), bounds: k[m + 1..].iter().map(|b| *b == 1).collect() });
    } else {
        let ls = loops(r);
        s = extrusion(r, f, &ls);
        if r.chance(1, 6) {
            // something beside it
            let far = 4.0 * s.vs.iter().map(|p| (*p - f.o).length()).fold(1.0, f64::max);
            // its top or its bottom may be level with the top of the first one
            let top = s.vs.iter().map(|p| (*p - f.o).dot(f.z)).fold(0.0, f64::max);
            let g = Frame { o: f.o + f.x * far + f.z * r.pick(&[0.0, 0.0, top]), ..f };
            let ls = loops(r);
            let t = extrusion(r, g, &ls);
            s = s.joined(t);
        } else if r.chance(1, 8) {
            // a void in a box
            let far = 2.0 * s.vs.iter().map(|p| (*p - f.o).length()).fold(1.0, f64::max);
            let square: Vec<Side> = straight(&[Point2::new(-far, -far), Point2::new(far, -far), Point2::new(far, far), Point2::new(-far, far)]);
            let mut t = Solid { axis: f.z, ..Default::default() };
            let (a, b) = (t.ring(f, &square, level(-far)), t.ring(f, &square, level(far)));
            t.walls(f, &square, &a, &b, r);
            t.cap(-f.z, vec![backward(&a)]);
            t.cap(f.z, vec![forward(&b)]);
            s = t.joined(s.inverted());
        }
    }
    r.shuffle(&mut s.walls);
    let flags = flags.unwrap_or_else(|| Flags {
        edges: s.edges.iter().map(|_| r.chance(1, 2)).collect(),
        bounds: s.walls.iter().flat_map(|w| w.loops.iter()).map(|_| r.chance(1, 2)).collect(),
    });
    let mut file = File::new();
    let (faces, e) = write(r, &mut file, &mut s, &flags);
    if r.chance(1, 2) {
        let shell = file.new_entity(format!("CLOSED_SHELL('',({}))", refs(&faces)));
        file.new_entity(format!("MANIFOLD_SOLID_BREP('',@{}@)", shell));
    }
    let text = file.text(r, &faces);
    let mut out = vec![e];
    match read(&text, r) {
        Err(m) => out.push(Ev::new("read").s("panic", &m)),
        Ok(Err(m)) => out.push(Ev::new("read").s("panic", &m.to_string())),
        Ok(Ok(m)) => {
            for kind in ["obj", "stl"] {
                let name = if kind == "obj" { "solid.obj" } else { "solid.stl" };
                let res = guard(|| if kind == "obj" { m.save_as_obj(name) } else { m.save_as_stl(name) });
                let bytes = std::fs::read(name).unwrap_or_default();
                std::fs::remove_file(name).ok();
                let got = match res {
                    Err(p) => Err(p),
                    Ok(Err(x)) => Err(x.to_string()),
                    Ok(Ok(())) if kind == "obj" => obj(&String::from_utf8_lossy(&bytes)),
                    Ok(Ok(())) => stl(&bytes),
                };
                out.push(Ev::new("saved").b("single", kind == "stl").out(got, |e, (vs, ts)| e.v3s("vs", &vs).raw("ts", &tris(&ts))));
            }
        }
    }
    for e in out {
        c.ev(e);
    }
}
