//! C27: answers depend on the geometry alone; queries and saves change nothing else.
use super::c13::star;
use super::c14::PlaneFrame;
use super::c18::mesh;
use crate::gen::{AnyCurve, AnySurface, Rng};
use crate::rec::*;
use crate::Case;
use geom3d::curve::*;
use geom3d::points::*;
use geom3d::surface::*;
use geom3d::*;

/// something a session holds; all of it can be taken apart and put together again
enum Thing {
    Knots(KnotVector),
    Curve(BSplineCurve<Point3>),
    Bezier(BezierCurve<Point3>),
    Polyline(Polyline),
    Circle(Circle),
    Surface(BSplineSurface<Point3>),
    Patch(BezierSurface<Point3>),
    Cylinder(Cylinder),
    Face(PlaneFrame, Vec<Vec<Point2>>),
    Mesh(TriangleMesh),
    Cloud(Vec<Point3>),
}
const KINDS: usize = 11;

struct Bits(Vec<u64>);
impl Bits {
    fn n(mut self, x: usize) -> Bits {
        self.0.push(x as u64);
        self
    }
    fn f(mut self, xs: &[f64]) -> Bits {
        self.0.push(xs.len() as u64);
        self.0.extend(xs.iter().map(|x| x.to_bits()));
        self
    }
    fn p2(self, ps: &[Point2]) -> Bits {
        let v: Vec<f64> = ps.iter().flat_map(|p| [p.x, p.y]).collect();
        self.f(&v)
    }
    fn p3(self, ps: &[Point3]) -> Bits {
        let v: Vec<f64> = ps.iter().flat_map(|p| [p.x, p.y, p.z]).collect();
        self.f(&v)
    }
    fn u(mut self, xs: &[u32]) -> Bits {
        self.0.push(xs.len() as u64);
        self.0.extend(xs.iter().map(|x| *x as u64));
        self
    }
    fn mesh(self, m: &TriangleMesh) -> Bits {
        self.p3(&m.vertices).p3(&m.normals).u(&m.triangles)
    }
    fn knots(self, t: &KnotVector) -> Bits {
        self.f(&t.0)
    }
    fn curve(self, c: &BSplineCurve<Point3>) -> Bits {
        self.n(c.degree as usize).knots(&c.knots).p3(&c.control_points)
    }
    fn grid(self, g: &Grid<Point3>) -> Bits {
        let v: Vec<Point3> = g.iter().copied().collect();
        self.n(g.rows()).n(g.cols()).p3(&v)
    }
    fn surface(self, s: &BSplineSurface<Point3>) -> Bits {
        self.n(s.degree.0 as usize).n(s.degree.1 as usize).knots(&s.knots.0).knots(&s.knots.1).grid(&s.control_points)
    }
    fn bytes(self, b: &[u8]) -> Bits {
        let v: Vec<u32> = b.iter().map(|x| *x as u32).collect();
        self.u(&v)
    }
    fn digest(&self) -> String {
        let (mut a, mut b) = (0xcbf29ce484222325u64, 0x9e3779b97f4a7c15u64);
        for x in &self.0 {
            a = (a ^ x ^ (x >> 29)).wrapping_mul(0x100000001b3);
            a ^= a >> 31;
            b = (b.rotate_left(7) ^ x).wrapping_mul(0xbf58476d1ce4e5b9);
        }
        is(&[(a >> 34) as i64, (b >> 34) as i64])
    }
}
fn bits() -> Bits {
    Bits(vec![])
}
fn answer(r: Result<Bits, String>) -> String {
    match r {
        Ok(b) => b.digest(),
        Err(m) => bits().bytes(m.as_bytes()).digest(),
    }
}

impl Thing {
    fn any(r: &mut Rng, kind: usize) -> Thing {
        let d = r.int(1, 4) as usize;
        // things of a session are parametrised alike, so that what is remembered of one fits another
        let knots = |r: &mut Rng, d: usize| {
            let n = d + 1 + r.below(7);
            let mut t: Vec<f64> = (0..n - d - 1).map(|_| r.int(1, 15) as f64 / 16.0).collect();
            t.sort_by(|a, b| a.partial_cmp(b).unwrap());
            t.dedup();
            let n = t.len() + d + 1;
            let t: Vec<f64> = std::iter::repeat(0.0).take(d + 1).chain(t).chain(std::iter::repeat(1.0).take(d + 1)).collect();
            (n, t)
        };
        match kind {
            0 => Thing::Knots(KnotVector::new(knots(r, d).1)),
            1 => {
                let (n, t) = knots(r, d);
                Thing::Curve(BSplineCurve { control_points: r.d3s(n), knots: KnotVector::new(t), degree: d as u8 })
            }
            2 => Thing::Bezier(BezierCurve { control_points: r.d3s(d + 1) }),
            3 => match AnyCurve::polyline(r, 7) {
                AnyCurve::Polyline(vs) => Thing::Polyline(Polyline::new(vs)),
                _ => unreachable!(),
            },
            4 => match AnyCurve::circle(r) {
                AnyCurve::Circle(center, radius, axis, ref_dir) => Thing::Circle(Circle { center, radius, axis, ref_dir }),
                _ => unreachable!(),
            },
            5 => {
                let d2 = r.int(1, 3) as usize;
                let ((n, t), (m, s)) = (knots(r, d), knots(r, d2));
                Thing::Surface(BSplineSurface::new(Grid::from_vec(r.d3s(n * m), m), (KnotVector::new(t), KnotVector::new(s)), (d, d2)))
            }
            6 => {
                let m = r.int(2, 4) as usize;
                Thing::Patch(BezierSurface::new(Grid::from_vec(r.d3s((d + 1) * m), m)))
            }
            7 => {
                let (x, _, z) = r.frame();
                Thing::Cylinder(Cylinder { origin: r.d3(), axis: z, ref_dir: x, radius: r.int(1, 64) as f64 / 8.0 })
            }
            8 => {
                let n = r.int(3, 9) as usize;
                let f = PlaneFrame::any(r);
                Thing::Face(f, if r.chance(1, 2) { vec![star(r, n)] } else { super::c15::face(r) })
            }
            9 => {
                let normals = r.chance(1, 2);
                let n = r.pick(&[0, 1, 3, 40]);
                Thing::Mesh(mesh(r, n + 3, normals, n, &|r| r.coord()))
            }
            _ => {
                let n = r.pick(&[0, 1, 5, 60]);
                Thing::Cloud(r.p3s(n))
            }
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Thing::Knots(_) => "knots",
            Thing::Curve(_) => "b-spline curve",
            Thing::Bezier(_) => "bezier curve",
            Thing::Polyline(_) => "polyline",
            Thing::Circle(_) => "circle",
            Thing::Surface(_) => "b-spline surface",
            Thing::Patch(_) => "bezier surface",
            Thing::Cylinder(_) => "cylinder",
            Thing::Face(..) => "face",
            Thing::Mesh(_) => "mesh",
            Thing::Cloud(_) => "points",
        }
    }
    /// all public data
    fn content(&self) -> Bits {
        match self {
            Thing::Knots(t) => bits().n(0).knots(t),
            Thing::Curve(c) => bits().n(1).curve(c),
            Thing::Bezier(c) => bits().n(2).p3(&c.control_points),
            Thing::Polyline(c) => bits().n(3).p3(&c.vertices).f(&c.segment_lengths).f(&[c.length]),
            Thing::Circle(c) => bits().n(4).p3(&[c.center, c.axis, c.ref_dir]).f(&[c.radius]),
            Thing::Surface(s) => bits().n(5).surface(s),
            Thing::Patch(s) => bits().n(6).grid(&s.control_points),
            Thing::Cylinder(s) => bits().n(7).p3(&[s.origin, s.axis, s.ref_dir]).f(&[s.radius]),
            Thing::Face(f, ls) => ls.iter().fold(bits().n(8).p3(&[f.0, f.1, f.2]), |b, l| b.p2(l)),
            Thing::Mesh(m) => bits().n(9).mesh(m),
            Thing::Cloud(ps) => bits().n(10).p3(ps),
        }
    }
    /// an equal thing, put together anew
    fn again(&self) -> Thing {
        match self {
            Thing::Knots(t) => Thing::Knots(KnotVector::new(t.0.clone())),
            Thing::Curve(c) => Thing::Curve(BSplineCurve { control_points: c.control_points.clone(), knots: KnotVector::new(c.knots.0.clone()), degree: c.degree }),
            Thing::Bezier(c) => Thing::Bezier(BezierCurve { control_points: c.control_points.clone() }),
            Thing::Polyline(c) => Thing::Polyline(Polyline::new(c.vertices.clone())),
            Thing::Circle(c) => Thing::Circle(Circle { center: c.center, radius: c.radius, axis: c.axis, ref_dir: c.ref_dir }),
            Thing::Surface(s) => {
                let g = Grid::from_vec(s.control_points.iter().copied().collect(), s.control_points.cols());
                let k = (KnotVector::new(s.knots.0 .0.clone()), KnotVector::new(s.knots.1 .0.clone()));
                Thing::Surface(BSplineSurface::new(g, k, (s.degree.0 as usize, s.degree.1 as usize)))
            }
            Thing::Patch(s) => Thing::Patch(BezierSurface::new(Grid::from_vec(s.control_points.iter().copied().collect(), s.control_points.cols()))),
            Thing::Cylinder(s) => Thing::Cylinder(Cylinder { origin: s.origin, axis: s.axis, ref_dir: s.ref_dir, radius: s.radius }),
            Thing::Face(f, ls) => Thing::Face(PlaneFrame(f.0, f.1, f.2), ls.clone()),
            Thing::Mesh(m) => Thing::Mesh(TriangleMesh { vertices: m.vertices.clone(), normals: m.normals.clone(), triangles: m.triangles.clone() }),
            Thing::Cloud(ps) => Thing::Cloud(ps.clone()),
        }
    }
    /// a thing that differs in one place only
    fn similar(&self, r: &mut Rng) -> Thing {
        let mut t = self.again();
        let d = r.pick(&[1.0, -0.5, 1e-3, 1e-9]);
        // one inner knot at another place
        let shift = |r: &mut Rng, t: &mut KnotVector| {
            let n = t.0.len();
            let (first, last) = (t.0[0], t.0[n - 1]);
            let inner: Vec<usize> = (1..n - 1).filter(|&i| t.0[i - 1] < t.0[i] && t.0[i] < t.0[i + 1]).collect();
            if !inner.is_empty() {
                t.0.remove(r.pick(&inner));
                let k = first + (last - first) * r.int(1, 15) as f64 / 16.0;
                let i = t.0.iter().position(|x| *x > k).unwrap();
                t.0.insert(i, k);
            }
            !inner.is_empty()
        };
        let bump = |r: &mut Rng, ps: &mut [Point3]| {
            let n = ps.len();
            if n > 0 {
                let i = r.below(n);
                ps[i][r.below(3)] += d;
            }
        };
        match &mut t {
            Thing::Knots(t) => {
                shift(r, t);
            }
            Thing::Curve(c) => {
                if r.chance(1, 2) || !shift(r, &mut c.knots) {
                    bump(r, &mut c.control_points);
                }
            }
            Thing::Bezier(c) => bump(r, &mut c.control_points),
            Thing::Polyline(c) => {
                let mut vs = c.vertices.clone();
                bump(r, &mut vs);
                *c = Polyline::new(vs);
            }
            Thing::Circle(c) => {
                if r.chance(1, 2) {
                    c.radius += d.abs();
                } else {
                    bump(r, std::slice::from_mut(&mut c.center));
                }
            }
            Thing::Surface(s) => {
                let k = r.below(4);
                if k > 1 || !shift(r, if k == 0 { &mut s.knots.0 } else { &mut s.knots.1 }) {
                    let mut g: Vec<Point3> = s.control_points.iter().copied().collect();
                    bump(r, &mut g);
                    s.control_points = Grid::from_vec(g, s.control_points.cols());
                }
            }
            Thing::Patch(s) => {
                let mut g: Vec<Point3> = s.control_points.iter().copied().collect();
                bump(r, &mut g);
                s.control_points = Grid::from_vec(g, s.control_points.cols());
            }
            Thing::Cylinder(s) => {
                if r.chance(1, 2) {
                    s.radius += d.abs();
                } else {
                    bump(r, std::slice::from_mut(&mut s.origin));
                }
            }
            Thing::Face(f, ls) => {
                if r.chance(1, 2) {
                    bump(r, std::slice::from_mut(&mut f.0));
                } else {
                    // the same loops from another point on, or a smaller copy
                    if r.chance(1, 2) {
                        ls[0].rotate_left(1);
                    } else {
                        for p in ls.iter_mut().flatten() {
                            *p = *p * 0.75;
                        }
                    }
                }
            }
            Thing::Mesh(m) => {
                let n = m.triangles.len();
                match r.below(3) {
                    0 if n > 0 => {
                        let i = r.below(n);
                        m.triangles[i] = r.below(m.vertices.len()) as u32;
                    }
                    1 => bump(r, &mut m.normals),
                    _ => bump(r, &mut m.vertices),
                }
            }
            Thing::Cloud(ps) => bump(r, ps),
        }
        t
    }
    /// the library's own clone, where there is one
    fn cloned(&self) -> Thing {
        match self {
            Thing::Knots(t) => Thing::Knots(t.clone()),
            Thing::Curve(c) => Thing::Curve(c.clone()),
            Thing::Surface(s) => Thing::Surface(s.clone()),
            Thing::Mesh(m) => Thing::Mesh(m.clone()),
            _ => self.again(),
        }
    }
    fn edit(&mut self, k: usize, u: f64) {
        match self {
            Thing::Knots(t) => {
                if k == 0 {
                    t.add_knot(u);
                } else {
                    *t = t.normalize();
                    let n = t.0.len();
                    t.0[n - 1] += 1.0;
                }
            }
            Thing::Curve(c) => match k {
                0 => c.add_knot(u),
                1 => {
                    c.split(u);
                }
                2 => c.clamp(),
                _ => c.control_points[0].x += 1.0,
            },
            Thing::Bezier(c) => c.control_points[k % 2].y += 1.0,
            Thing::Polyline(c) => {
                let mut vs = c.vertices.clone();
                vs[0].z += 1.0;
                *c = Polyline::new(vs);
            }
            Thing::Circle(c) => {
                if k == 0 {
                    c.radius *= 2.0;
                } else {
                    c.center.x += 1.0;
                }
            }
            Thing::Surface(s) => s.control_points[0][k % 2].x += 1.0,
            Thing::Patch(s) => s.control_points[1][k % 2].x += 1.0,
            Thing::Cylinder(s) => {
                if k == 0 {
                    s.radius *= 2.0;
                } else {
                    s.origin.y += 1.0;
                }
            }
            Thing::Face(f, ls) => {
                if k == 0 {
                    f.0.x += 1.0;
                } else {
                    for p in ls.iter_mut().flatten() {
                        *p = *p * 2.0;
                    }
                }
            }
            Thing::Mesh(m) => {
                if k == 0 {
                    *m = m.clone().reverse_winding_direction();
                } else {
                    m.vertices[0].x += 1.0;
                }
            }
            Thing::Cloud(ps) => {
                if k == 0 {
                    *ps = scale_points(ps, 2.0);
                } else {
                    ps.push(Point3::X);
                }
            }
        }
    }
    /// a question; true if the answer may depend on random probes
    fn ask(&self, k: usize, u: f64, v: f64, q: Point3) -> (&'static str, bool, Result<Bits, String>) {
        let f = |what: &'static str, x: Result<Bits, String>| (what, false, x);
        let p = |x: Point3| bits().p3(&[x]);
        let uv = |r: f64| Point2::new(r * u, r * v);
        // asked alone or after others in one call
        let (k, batch) = (k % 5, k / 5);
        let normal = |s: &dyn Surface| {
            let ns = if batch == 0 { s.get_normals(&[uv(1.0)]) } else { s.get_normals(&[uv(0.5), uv(0.75), uv(1.0)]) };
            bits().p3(&ns.last().copied().into_iter().collect::<Vec<_>>())
        };
        match self {
            Thing::Knots(t) => match k % 5 {
                0 => f("basis", guard(|| bits().f(&t.bspline_basis(2, u)))),
                1 => f("span", guard(|| bits().n(t.span_index(u)))),
                2 => f("normalize", guard(|| bits().knots(&t.normalize()))),
                3 => f("multiplicity", guard(|| bits().n(t.multiplicity(1)))),
                _ => f("spans", guard(|| bits().f(&t.spans(1)).knots(&t.shrink()).f(&[t.range().0, t.range().1]))),
            },
            Thing::Curve(c) => match k % 5 {
                0 => f("point", guard(|| p(c.get_point(u)))),
                1 => f("derivative", guard(|| bits().curve(&c.derivative()).p3(&[c.derivative().get_point(u)]))),
                2 => f("project", guard(|| bits().f(&[c.project(q)]))),
                3 => f("pieces", guard(|| c.to_piecewise_bezier().iter().fold(bits(), |b, x| b.p3(&x.control_points)))),
                _ => ("samples", true, guard(|| bits().p3(&CurveSegment { curve: c.clone(), parameter_range: (0.0, 1.0), tolerance: 0.05, parameter_division: 8 }.get_points()))),
            },
            Thing::Bezier(c) => match k % 4 {
                0 => f("point", guard(|| p(c.get_point(u)))),
                1 => f("derivative", guard(|| p(c.derivative().get_point(u)))),
                2 => f("project", guard(|| bits().f(&[c.project(q)]))),
                _ => f("degree", guard(|| bits().n(c.degree()))),
            },
            Thing::Polyline(c) => match k % 4 {
                0 => f("point", guard(|| p(c.get_point(u)))),
                1 => f("project", guard(|| bits().f(&[c.project(q)]))),
                2 => f("ends", guard(|| bits().p3(&[c.start(), c.end()]))),
                _ => f("nearest vertex", guard(|| bits().n(c.nearest_vertex(q)))),
            },
            Thing::Circle(c) => match k % 3 {
                0 => f("point", guard(|| p(c.get_point(u * 6.0)))),
                1 => f("project", guard(|| bits().f(&[c.project(q)]))),
                _ => f("range", guard(|| {
                    let r = c.refine_parameter_range((u, v), true);
                    bits().f(&[r.0, r.1])
                })),
            },
            Thing::Surface(s) => match k % 5 {
                0 => f("point", guard(|| p(s.get_point(u, v)))),
                1 => f("normal", guard(|| normal(s))),
                2 => f("derivatives", guard(|| bits().surface(&s.derivative_u()).surface(&s.derivative_v()))),
                3 => f("project", guard(|| {
                    let near = q + Point3::new(u, v, 0.0) * 0.1;
                    bits().p2(if batch == 0 { s.project_points(&[q])[..].to_vec() } else { s.project_points(&[q * 0.5, near, q])[2..].to_vec() }.as_slice())
                })),
                _ => f("patch", guard(|| bits().mesh(&SurfacePatch { surface: s.clone(), parameter_range: ((0.0, 1.0), (0.0, 1.0)), parameter_division: (2, 3) }.get_triangle_mesh()))),
            },
            Thing::Patch(s) => match k % 2 {
                0 => f("point", guard(|| p(s.get_point(u, v)))),
                _ => f("normal", guard(|| normal(s))),
            },
            Thing::Cylinder(s) => match k % 4 {
                0 => f("point", guard(|| p(s.get_point(u, v)))),
                1 => f("project", guard(|| bits().p2(&[s.project(q)]))),
                2 => f("ring", guard(|| bits().p2(&[s.project_to_ring(q, 100.0)]))),
                _ => f("normal", guard(|| normal(s))),
            },
            Thing::Face(fr, ls) => match k % 3 {
                0 | 1 => f("trim", guard(|| {
                    let bounds: Vec<EdgeLoop> = ls.iter().map(|l| outline(fr, l)).collect();
                    bits().mesh(&TrimmedSurface { surface: fr.plane(), bounds }.get_triangle_mesh())
                })),
                _ => f("polygon", guard(|| bits().p3(&outline(fr, &ls[0]).to_polygon()))),
            },
            Thing::Mesh(m) => match k % 2 {
                0 => f("count", guard(|| bits().n(m.triangle_count()))),
                _ => f("text", guard(|| {
                    let mut w = vec![];
                    m.write_obj(&mut w, 4, 7).unwrap();
                    bits().bytes(&w)
                })),
            },
            Thing::Cloud(ps) => match k % 3 {
                0 => f("scale", guard(|| bits().p3(&scale_points(ps, u)))),
                1 if !ps.is_empty() => f("nearest", guard(|| bits().n(utils::find_nearest_point(ps, q)))),
                _ => f("size", guard(|| bits().n(ps.len()))),
            },
        }
    }
    /// ways to save it
    fn saves(&self) -> &'static [&'static str] {
        match self {
            Thing::Mesh(_) => &["mesh.obj", "model.obj", "model.stl"],
            Thing::Cloud(_) => &["points.xyz", "plane.xy", "curve.svg", "bound.obj", "normals.xyz"],
            _ => &[],
        }
    }
    fn save(&self, how: &str, path: &str) -> std::io::Result<()> {
        match self {
            Thing::Mesh(m) => {
                let model = || {
                    let mut x = Model::new();
                    x.add_face(m.clone());
                    x.add_face(m.clone());
                    x
                };
                match how {
                    "mesh.obj" => m.save_as_obj(path),
                    "model.obj" => model().save_as_obj(path),
                    _ => model().save_as_stl(path),
                }
            }
            Thing::Cloud(ps) => match how {
                "points.xyz" => save_point_cloud(ps, path),
                "plane.xy" => save_points(&ps.iter().map(|p| p.truncate()).collect::<Vec<_>>(), path),
                "normals.xyz" => save_point_cloud_with_normal(&ps.iter().map(|p| (*p, *p)).collect::<Vec<_>>(), path),
                "bound.obj" => {
                    let mut v = ps.clone();
                    v.push(Point3::X);
                    v.push(Point3::Y);
                    save_bound_as_obj(&v, path)
                }
                _ => {
                    let mut m: Model<TriangleMesh> = Model::new();
                    let mut v = ps.clone();
                    v.push(Point3::X);
                    v.push(Point3::Y);
                    let curve = Box::new(Polyline::new(v)) as Box<dyn Curve>;
                    m.add_curve(Polycurve { segments: vec![CurveSegment { curve, parameter_range: (0.0, 1.0), tolerance: 0.01, parameter_division: 4 }] });
                    m.save_as_svg(path, (210.0, 297.0))
                }
            },
            _ => Ok(()),
        }
    }
}

fn outline(f: &PlaneFrame, l: &[Point2]) -> EdgeLoop {
    let n = l.len();
    let edges = (0..n)
        .map(|i| {
            let (a, b) = (f.at(l[i]), f.at(l[(i + 1) % n]));
            let curve = Box::new(Line { origin: a, direction: b - a }) as Box<dyn Curve>;
            CurveSegment { curve, parameter_range: (0.0, 1.0), tolerance: 0.01, parameter_division: 4 }
        })
        .collect();
    EdgeLoop { edges }
}

/// what a file says; the header of an STL file may name the file
fn file_digest(path: &str) -> String {
    let b = std::fs::read(path).unwrap_or_default();
    let from = if path.ends_with(".stl") { b.len().min(80) } else { 0 };
    bits().n(b.len()).bytes(&b[from..]).digest()
}

struct Session {
    /// in the process of its own: which questions to ask, and what the answers are
    audit: Option<(u64, Vec<String>)>,
    /// the event and the number of every question
    asked: Vec<(usize, usize)>,
    questions: usize,
    things: Vec<(i64, Thing)>,
    us: Vec<f64>,
    qs: Vec<Point3>,
    out: Vec<Ev>,
    dir: String,
    files: usize,
}

fn ask_ev(h: i64, t: &Thing, k: usize, u: f64, v: f64, q: Point3) -> Ev {
    let (what, free, a) = t.ask(k, u, v, q);
    let label = format!("{} of {} at {} {} {}", what, t.name(), u, v, q);
    Ev::new("ask").n("h", h).s("q", &label).b("free", free).raw("a", &answer(a))
}

fn save_ev(h: i64, t: &Thing, how: &str, path: &str, name: &str) -> Ev {
    let e = Ev::new("save").n("h", h).s("file", name).s("q", &format!("save {}", how));
    e.out(guard(|| t.save(how, path)), |e, r| match r {
        Ok(()) => e.raw("a", &file_digest(path)),
        Err(x) => e.raw("a", &bits().bytes(x.to_string().as_bytes()).digest()),
    })
}

impl Session {
    fn at(&self, h: i64) -> &Thing {
        &self.things.iter().find(|t| t.0 == h).unwrap().1
    }
    fn put(&mut self, h: i64, t: Thing) {
        self.things.retain(|x| x.0 != h);
        self.things.push((h, t));
    }
    fn make(&mut self, h: i64, t: Thing) {
        // the content is that of the data it is made from: take it from another one made of the same
        let c = t.again().content().digest();
        self.out.push(Ev::new("make").n("h", h).raw("c", &c));
        self.put(h, t);
    }
    fn clone_of(&mut self, h: i64, from: i64) {
        let t = self.at(from).cloned();
        self.out.push(Ev::new("clone").n("h", h).n("from", from));
        self.put(h, t);
    }
    fn edit(&mut self, h: i64, k: usize, u: f64) {
        let i = self.things.iter().position(|t| t.0 == h).unwrap();
        let t = &mut self.things[i].1;
        let e = Ev::new("edit").n("h", h).s("q", &format!("edit {} of {} at {}", k, t.name(), u));
        match guard(|| t.edit(k, u)) {
            Ok(()) => {
                let c = t.content().digest();
                self.out.push(e.raw("c", &c));
            }
            // an edit that fails is another property's business; the thing is not used any more
            Err(_) => {
                let t = Thing::Cloud(vec![Point3::X]);
                self.make(h, t);
            }
        }
    }
    fn ask(&mut self, r: &mut Rng, h: i64) {
        let k = r.below(10);
        let (u, v, q) = (r.pick(&self.us), r.pick(&self.us), r.pick(&self.qs));
        self.question(h, k, u, v, q);
        if r.chance(1, 2) {
            let t = self.at(h).again();
            let c = t.content().digest();
            self.out.push(Ev::new("make").n("h", 99).raw("c", &c));
            self.put(99, t);
            self.question(99, if r.chance(1, 2) { k } else { (k + 5) % 10 }, u, v, q);
            self.things.retain(|x| x.0 != 99);
        }
    }
    /// the same of everything there is, one after the other
    fn ask_all(&mut self, r: &mut Rng) {
        for _ in 0..r.int(1, 4) {
            let k = r.below(10);
            let (u, v, q) = (r.pick(&self.us), r.pick(&self.us), r.pick(&self.qs));
            for h in self.things.iter().map(|t| t.0).collect::<Vec<_>>() {
                self.question(h, k, u, v, q);
            }
        }
    }
    fn question(&mut self, h: i64, k: usize, u: f64, v: f64, q: Point3) {
        let n = self.questions;
        self.questions += 1;
        if let Some((salt, answers)) = &mut self.audit {
            if Rng::new(*salt ^ (n as u64) << 20).chance(1, 3) {
                let a = answer(self.things.iter().find(|t| t.0 == h).unwrap().1.ask(k, u, v, q).2);
                answers.push(format!("{} {}", n, a));
            }
        } else {
            let e = ask_ev(h, self.at(h), k, u, v, q);
            self.asked.push((self.out.len(), n));
            self.out.push(e);
        }
    }
    fn look(&mut self) {
        for (h, t) in &self.things {
            self.out.push(Ev::new("look").n("h", *h).s("q", t.name()).raw("c", &t.content().digest()));
        }
    }
    fn name(&mut self, r: &mut Rng, how: &str) -> String {
        let ext = how.rsplit('.').next().unwrap();
        // sometimes over an older file
        let n = if self.files > 0 && r.chance(1, 4) { r.below(self.files) } else { self.files };
        self.files = self.files.max(n + 1);
        format!("f{}.{}", n, ext)
    }
    fn save(&mut self, r: &mut Rng, h: i64) {
        let hows = self.at(h).saves();
        if hows.is_empty() {
            return;
        }
        let how = r.pick(hows);
        let name = self.name(r, how);
        let path = format!("{}/{}", self.dir, name);
        let e = save_ev(h, self.at(h), how, &path, &name);
        self.out.push(e);
        if how == "points.xyz" {
            let e = Ev::new("load").s("file", &name).s("q", "load").out(guard(|| load_point_cloud(&path)), |e, r| {
                e.raw("a", &answer(r.map(|p| bits().p3(&p)).map_err(|x| x.to_string())))
            });
            self.out.push(e);
        }
    }
    fn folder(&mut self) {
        let mut names: Vec<String> = std::fs::read_dir(&self.dir).unwrap().map(|x| x.unwrap().file_name().into_string().unwrap()).collect();
        names.sort();
        let sums = list(&names, |n| file_digest(&format!("{}/{}", self.dir, n)));
        self.out.push(Ev::new("folder").raw("names", &list(&names, |n| esc(n))).raw("sums", &sums));
    }
    /// several threads ask and save at the same time, each its own copies
    fn threads(&mut self, r: &mut Rng) {
        let alone = self.audit.is_some();
        struct Job(Vec<(i64, Thing)>, Vec<(usize, usize, usize, usize)>, Option<(i64, &'static str, String)>);
        let n = r.int(2, 4) as usize;
        let mut jobs = vec![];
        for w in 0..n {
            let things: Vec<(i64, Thing)> = self.things.iter().map(|(h, t)| (*h, if r.chance(1, 2) { t.cloned() } else { t.again() })).collect();
            let asks = (0..r.int(2, 6)).map(|_| (r.below(things.len()), r.below(10), r.below(3), r.below(3))).collect();
            let savers: Vec<usize> = (0..things.len()).filter(|&i| !things[i].1.saves().is_empty()).collect();
            let save = if savers.is_empty() { None } else {
                let i = r.pick(&savers);
                let how = r.pick(things[i].1.saves());
                let ext = how.rsplit('.').next().unwrap();
                // every thread its own file
                Some((things[i].0, how, format!("t{}.{}", w, ext)))
            };
            jobs.push(Job(things, asks, save));
        }
        if alone {
            return;
        }
        let barrier = std::sync::Barrier::new(n);
        let (us, qs, dir) = (self.us.clone(), self.qs.clone(), self.dir.clone());
        let outs: Vec<Vec<Ev>> = std::thread::scope(|s| {
            let hs: Vec<_> = jobs
                .into_iter()
                .map(|j| {
                    let (us, qs, dir, barrier) = (&us, &qs, &dir, &barrier);
                    // the things are moved into the thread, nothing is shared
                    struct Send_<T>(T);
                    unsafe impl<T> Send for Send_<T> {}
                    let j = Send_(j);
                    s.spawn(move || {
                        let j = j;
                        let Send_(Job(things, asks, save)) = j;
                        let mut out = vec![];
                        barrier.wait();
                        for (i, k, a, b) in asks {
                            let (h, t) = &things[i];
                            out.push(ask_ev(*h, t, k, us[a], us[b], qs[a]));
                        }
                        if let Some((h, how, name)) = save {
                            let t = &things.iter().find(|t| t.0 == h).unwrap().1;
                            for _ in 0..3 {
                                barrier.wait();
                                out.push(save_ev(h, t, how, &format!("{}/{}", dir, name), &name));
                            }
                        } else {
                            for _ in 0..3 {
                                barrier.wait();
                            }
                        }
                        Send_(out)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().map(|x| x.0).unwrap_or_default()).collect()
        });
        for o in outs {
            self.out.extend(o);
        }
    }
}

/// answers of a process that does the same but asks only some of the questions
fn ask_alone(idx: u64) -> std::collections::HashMap<usize, String> {
    let a: Vec<String> = std::env::args().collect();
    let (i, j) = (idx.to_string(), (idx + 1).to_string());
    let scns = a.get(9).cloned().unwrap_or_default();
    let args = [&a[1], &a[2], &a[3], "1", "0", &i, &j, "alone.out", &scns];
    std::fs::remove_file("alone.ans").ok();
    let done = std::process::Command::new(std::env::current_exe().unwrap()).args(args).env("VH_ALONE", "alone.ans").stdin(std::process::Stdio::null()).status();
    let text = std::fs::read_to_string("alone.ans").unwrap_or_default();
    std::fs::remove_file("alone.out").ok();
    std::fs::remove_file("alone.ans").ok();
    if done.is_err() {
        return Default::default();
    }
    text.lines().filter_map(|l| l.split_once(' ')).filter_map(|(n, a)| Some((n.parse().ok()?, a.to_string()))).collect()
}

pub fn run(c: &mut Case) {
    let scn = c.scn.clone();
    let idx = c.idx as usize;
    // the same session in a process of its own, where only some of the questions are asked
    let alone = std::env::var("VH_ALONE").ok();
    let dir = if alone.is_some() { "s27a".to_string() } else { "s27".to_string() };
    std::fs::remove_dir_all(&dir).ok();
    std::fs::create_dir_all(&dir).unwrap();
    let r = &mut c.rng;
    let us = vec![r.int(1, 15) as f64 / 16.0, r.unit(), r.pick(&[0.0, 1.0, 0.5])];
    let qs = vec![r.d3(), r.d3(), r.p3()];
    let audit = alone.as_ref().map(|_| (idx as u64, vec![]));
    let mut s = Session { audit, asked: vec![], questions: 0, things: vec![], us, qs, out: vec![], dir, files: 0 };
    if let Some(x) = scn {
        // MCMemo: triples (operation, handle, content or other handle)
        let kind = idx % KINDS;
        let first = Thing::any(r, kind);
        let second = if r.chance(1, 2) { first.similar(r) } else { Thing::any(r, kind) };
        let data = [first, second];
        let k = r.below(4);
        for op in x.chunks(3) {
            match op[0] {
                0 => s.make(op[1], data[op[2] as usize - 1].again()),
                1 => s.clone_of(op[1], op[2]),
                2 => {
                    let u = s.us[0];
                    s.edit(op[1], k, u)
                }
                _ => {
                    s.ask(r, op[1]);
                    s.ask(r, op[1]);
                    s.save(r, op[1]);
                    s.look();
                }
            }
        }
        s.folder();
    } else {
        let first = r.below(KINDS);
        for h in 1..=r.int(2, 4) {
            let kind = if r.chance(1, 2) { first } else { r.below(KINDS) };
            let t = if h > 1 && r.chance(1, 3) { s.at(h - 1).similar(r) } else { Thing::any(r, kind) };
            s.make(h, t);
        }
        for _ in 0..r.int(6, if c.thorough { 40 } else { 20 }) {
            let h = s.things[r.below(s.things.len())].0;
            match r.below(15) {
                0 => {
                    let k = r.below(4);
                    let u = r.pick(&s.us[..2]);
                    s.edit(h, k, u)
                }
                1 => s.clone_of(r.int(1, 6), h),
                2 => {
                    let kind = r.below(KINDS);
                    let t = Thing::any(r, kind);
                    s.make(r.int(1, 6), t)
                }
                3 | 4 => s.save(r, h),
                5 => s.threads(r),
                6 => s.look(),
                7 => s.folder(),
                8 => s.ask_all(r),
                9 => {
                    let t = s.at(h).similar(r);
                    s.make(r.int(1, 6), t);
                    s.ask_all(r)
                }
                _ => s.ask(r, h),
            }
        }
        s.look();
        s.folder();
    }
    std::fs::remove_dir_all(&s.dir).ok();
    if let (Some(path), Some((_, answers))) = (alone, &s.audit) {
        std::fs::write(path, answers.join("\n")).ok();
        return;
    }
    let answers = ask_alone(c.idx);
    let mut evs: Vec<String> = s.out.into_iter().map(|e| e.done()).collect();
    // the other process was asked the same of the same
    for (at, n) in s.asked.iter().rev() {
        if let Some(a) = answers.get(n) {
            let e = evs[*at].clone();
            if let Some(i) = e.find(",\"a\":") {
                evs.insert(at + 1, format!("{},\"a\":{}}}", &e[..i], a));
            }
        }
    }
    c.evs.extend(evs);
}
