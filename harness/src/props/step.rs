//! Writing STEP files (ISO 10303-21) and reading them back with the library.
use crate::gen::Rng;
use crate::rec::*;
use geom3d::curve::*;
use geom3d::model::StepReader;
use geom3d::surface::*;
use geom3d::*;

/// A file being written.  Entities refer to each other as @n@; ids and the order of the
/// entities in the file are settled at the end.
pub struct File {
    ents: Vec<String>,
}

pub fn real(r: &mut Rng, x: f64) -> String {
    let s = if r.chance(1, 4) { format!("{:E}", x) } else { format!("{}", x) };
    if s.contains('.') {
        s
    } else if let Some(k) = s.find('E') {
        format!("{}.{}", &s[..k], &s[k..])
    } else {
        s + "."
    }
}
pub fn reals(r: &mut Rng, xs: &[f64]) -> String {
    xs.iter().map(|x| real(r, *x)).collect::<Vec<_>>().join(",")
}
pub fn tf(b: bool) -> &'static str {
    if b { ".T." } else { ".F." }
}
pub fn refs(ids: &[usize]) -> String {
    ids.iter().map(|i| format!("@{}@", i)).collect::<Vec<_>>().join(",")
}
fn ints(xs: &[usize]) -> String {
    xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

impl File {
    pub fn new() -> File {
        File { ents: vec![] }
    }
    pub fn new_entity(&mut self, text: String) -> usize {
        self.ents.push(text);
        self.ents.len() - 1
    }
    /// an entity, or one that says the same already
    pub fn add(&mut self, r: &mut Rng, text: String) -> usize {
        if r.chance(1, 2) {
            if let Some(k) = self.ents.iter().position(|e| *e == text) {
                return k;
            }
        }
        self.new_entity(text)
    }
    pub fn point(&mut self, r: &mut Rng, p: Point3) -> usize {
        let t = format!("CARTESIAN_POINT('',({}))", reals(r, &[p.x, p.y, p.z]));
        self.add(r, t)
    }
    pub fn points(&mut self, r: &mut Rng, ps: &[Point3]) -> String {
        let ids: Vec<usize> = ps.iter().map(|p| self.point(r, *p)).collect();
        format!("({})", refs(&ids))
    }
    pub fn direction(&mut self, r: &mut Rng, d: Vec3) -> usize {
        let t = format!("DIRECTION('',({}))", reals(r, &[d.x, d.y, d.z]));
        self.add(r, t)
    }
    pub fn optional_direction(&mut self, r: &mut Rng, d: Option<Vec3>) -> String {
        d.map(|d| format!("@{}@", self.direction(r, d))).unwrap_or("$".into())
    }
    pub fn placement(&mut self, r: &mut Rng, p: &Placement) -> usize {
        let o = self.point(r, p.o);
        let (z, x) = (self.optional_direction(r, p.axis), self.optional_direction(r, p.x));
        self.add(r, format!("AXIS2_PLACEMENT_3D('',@{}@,{},{})", o, z, x))
    }
    fn net(&mut self, r: &mut Rng, net: &[Vec<Point3>]) -> String {
        let rows: Vec<String> = net.iter().map(|row| self.points(r, row)).collect();
        format!("({})", rows.join(","))
    }
    pub fn curve(&mut self, r: &mut Rng, c: &StepCurve) -> usize {
        match c {
            StepCurve::Line(o, d, m) => {
                let (o, d) = (self.point(r, *o), self.direction(r, *d));
                let t = format!("VECTOR('',@{}@,{})", d, real(r, *m));
                let v = self.add(r, t);
                self.add(r, format!("LINE('',@{}@,@{}@)", o, v))
            }
            StepCurve::Circle(pl, radius) => {
                let p = self.placement(r, pl);
                let t = format!("CIRCLE('',@{}@,{})", p, real(r, *radius));
                self.add(r, t)
            }
            StepCurve::Polyline(ps) => {
                let ps = self.points(r, ps);
                self.add(r, format!("POLYLINE('',{})", ps))
            }
            StepCurve::BSpline(p, ms, ks, ps) => {
                let ps = self.points(r, ps);
                let t = format!(
                    "B_SPLINE_CURVE_WITH_KNOTS('',{},{},.UNSPECIFIED.,{},.F.,({}),({}),.UNSPECIFIED.)",
                    p, ps, r.pick(&[".F.", ".T.", ".U."]), ints(ms), reals(r, ks)
                );
                self.add(r, t)
            }
            StepCurve::Unsupported => {
                let pl = Placement { o: r.d3(), axis: None, x: None };
                let p = self.placement(r, &pl);
                match r.below(3) {
                    0 => {
                        let t = format!("ELLIPSE('',@{}@,{},{})", p, real(r, 3.0), real(r, 2.0));
                        self.add(r, t)
                    }
                    1 => self.new_entity(format!("CURVE_OF_SOME_OTHER_SCHEMA('',@{}@)", p)),
                    _ => {
                        let t = format!("PARABOLA('',@{}@,{})", p, real(r, 3.0));
                        self.add(r, t)
                    }
                }
            }
        }
    }
    pub fn surface(&mut self, r: &mut Rng, s: &StepSurface) -> usize {
        match s {
            StepSurface::Plane(pl) => {
                let p = self.placement(r, pl);
                self.add(r, format!("PLANE('',@{}@)", p))
            }
            StepSurface::Cylinder(pl, radius) => {
                let p = self.placement(r, pl);
                let t = format!("CYLINDRICAL_SURFACE('',@{}@,{})", p, real(r, *radius));
                self.add(r, t)
            }
            StepSurface::Net { kind, net, p, q, t, s, ws } => {
                let rows = self.net(r, net);
                let base = format!("{},{},{},.UNSPECIFIED.,.F.,.F.,.F.", p, q, rows);
                let knots = format!("({}),({}),({}),({}),.UNSPECIFIED.", ints(&t.0), ints(&s.0), reals(r, &t.1), reals(r, &s.1));
                let text = match kind {
                    'z' => format!("BEZIER_SURFACE('',{})", base),
                    'u' => format!("B_SPLINE_SURFACE('',{})", base),
                    'k' => format!("B_SPLINE_SURFACE_WITH_KNOTS('',{},{})", base, knots),
                    _ => {
                        let w: Vec<String> = ws.iter().map(|row| format!("({})", reals(r, row))).collect();
                        format!(
                            "(BOUNDED_SURFACE() B_SPLINE_SURFACE({}) B_SPLINE_SURFACE_WITH_KNOTS({}) GEOMETRIC_REPRESENTATION_ITEM() RATIONAL_B_SPLINE_SURFACE(({})) REPRESENTATION_ITEM('') SURFACE())",
                            base, knots, w.join(",")
                        )
                    }
                };
                self.add(r, text)
            }
            StepSurface::Revolution(o, axis, c) => {
                let c = self.curve(r, c);
                let o = self.point(r, *o);
                let z = self.optional_direction(r, *axis);
                let a = self.add(r, format!("AXIS1_PLACEMENT('',@{}@,{})", o, z));
                self.add(r, format!("SURFACE_OF_REVOLUTION('',@{}@,@{}@)", c, a))
            }
            StepSurface::Unsupported => {
                let pl = Placement { o: r.d3(), axis: None, x: None };
                let p = self.placement(r, &pl);
                match r.below(4) {
                    0 => {
                        let t = format!("CONICAL_SURFACE('',@{}@,{},{})", p, real(r, 3.0), real(r, 0.5));
                        self.add(r, t)
                    }
                    1 => self.new_entity(format!("SURFACE_OF_SOME_OTHER_SCHEMA('',@{}@)", p)),
                    2 => {
                        // turned from a curve that cannot be read
                        let c = self.curve(r, &StepCurve::Unsupported);
                        let o = self.point(r, pl.o);
                        let a = self.new_entity(format!("AXIS1_PLACEMENT('',@{}@,$)", o));
                        self.add(r, format!("SURFACE_OF_REVOLUTION('',@{}@,@{}@)", c, a))
                    }
                    _ => {
                        let t = format!("SPHERICAL_SURFACE('',@{}@,{})", p, real(r, 3.0));
                        self.add(r, t)
                    }
                }
            }
        }
    }
    /// the text of the file; `ordered` entities keep their order in it
    pub fn text(&self, r: &mut Rng, ordered: &[usize]) -> String {
        let n = self.ents.len();
        let mut ids: Vec<usize> = (1..=n).map(|i| i * 3).collect();
        let mut at: Vec<usize> = (0..n).collect();
        if r.chance(2, 3) {
            r.shuffle(&mut ids);
        }
        if r.chance(2, 3) {
            r.shuffle(&mut at);
            let mut places: Vec<usize> = (0..n).filter(|&k| ordered.contains(&at[k])).collect();
            places.sort();
            for (k, p) in places.iter().enumerate() {
                at[*p] = ordered[k];
            }
        }
        let mut s = String::from(
            "ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION((''),'2;1');\nFILE_NAME('a','2020-01-01T00:00:00',(''),(''),'','','');\nFILE_SCHEMA(('AUTOMOTIVE_DESIGN'));\nENDSEC;\nDATA;\n",
        );
        for k in at {
            let mut out = String::new();
            for (i, piece) in self.ents[k].split('@').enumerate() {
                if i % 2 == 0 {
                    out.push_str(piece);
                } else {
                    out.push_str(&format!("#{}", ids[piece.parse::<usize>().unwrap()]));
                }
            }
            if r.chance(1, 8) {
                out = out.replace(",", " ,\n  ").replace("=", " = ");
            }
            if r.chance(1, 10) {
                s.push_str("/* #1=PLANE('',#2); */ ");
            }
            s.push_str(&format!("#{}={};\n", ids[k], out));
        }
        s + "ENDSEC;\nEND-ISO-10303-21;\n"
    }
}

pub fn read(text: &str, r: &mut Rng) -> Result<Result<Model<TrimmedSurface<Box<dyn Surface>>>, std::io::Error>, String> {
    let name = r.pick(&["a.stp", "b.step", "c"]);
    std::fs::write(name, text).unwrap();
    let m = guard(|| StepReader::read_model(name));
    std::fs::remove_file(name).ok();
    m
}

/// an AXIS2_PLACEMENT_3D: directions of any length, or absent
#[derive(Clone, Debug)]
pub struct Placement {
    pub o: Point3,
    pub axis: Option<Vec3>,
    pub x: Option<Vec3>,
}

fn opt(d: &Option<Vec3>) -> String {
    d.map(v3).unwrap_or("[]".into())
}

/// a length to scale a direction with
fn length(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => 1.0,
        1 => r.pick(&[0.001, 1000.0, 2.0, 0.5]),
        _ => r.range(0.01, 20.0),
    }
}

impl Placement {
    pub fn random(r: &mut Rng) -> Placement {
        let o = r.p3();
        let (x, y, z) = r.frame();
        let k = length(r);
        let axis = if r.chance(1, 4) { None } else { Some(z * k) };
        let z = axis.unwrap_or(Vec3::Z).normalize();
        let ref_dir = if r.chance(1, 3) {
            // keep the default away from where it switches
            let off = (z.y * z.y + z.z * z.z).sqrt();
            if off != 0.0 && off < 1e-2 { Some(y) } else { None }
        } else {
            let y = z.cross(x);
            let x = if y.length() > 0.1 { x } else { Vec3::new(z.y, z.z, z.x) };
            // not perpendicular to the axis, as often as not
            let lean = if r.chance(1, 2) { r.range(-2.0, 2.0) } else { 0.0 };
            let d = (x + z * lean) * length(r);
            if z.cross(d).length() > 0.05 * d.length() { Some(d) } else { Some(z.any_orthonormal_vector()) }
        };
        Placement { o, axis, x: ref_dir }
    }
    pub fn json(&self) -> String {
        format!("{{\"o\":{},\"axis\":{},\"x\":{}}}", v3(self.o), opt(&self.axis), opt(&self.x))
    }
}

#[derive(Clone, Debug)]
pub enum StepCurve {
    /// point, direction, magnitude
    Line(Point3, Vec3, f64),
    Circle(Placement, f64),
    Polyline(Vec<Point3>),
    /// degree, multiplicities, distinct knots, points
    BSpline(usize, Vec<usize>, Vec<f64>, Vec<Point3>),
    Unsupported,
}

fn us_(xs: &[usize]) -> String {
    list(xs, |x| x.to_string())
}

/// a knot vector as distinct values and multiplicities
pub fn multiplicities(t: &[f64]) -> (Vec<usize>, Vec<f64>) {
    let (mut ms, mut ks) = (vec![], vec![]);
    for &x in t {
        if ks.last() == Some(&x) {
            *ms.last_mut().unwrap() += 1;
        } else {
            ks.push(x);
            ms.push(1);
        }
    }
    (ms, ks)
}
pub fn expand(ms: &[usize], ks: &[f64]) -> Vec<f64> {
    ms.iter().zip(ks).flat_map(|(m, k)| std::iter::repeat(*k).take(*m)).collect()
}

impl StepCurve {
    pub fn random(r: &mut Rng) -> StepCurve {
        match r.below(4) {
            0 => {
                let (x, _, _) = r.frame();
                let k = length(r);
                StepCurve::Line(r.p3(), x * k, if r.chance(1, 3) { 1.0 } else { length(r) })
            }
            1 => {
                let pl = Placement::random(r);
                StepCurve::Circle(pl, r.int(1, 64) as f64 / 8.0)
            }
            2 => {
                let n = r.pick(&[2, 3, 4, 5, 5, 12]);
                StepCurve::Polyline(r.d3s(n))
            }
            _ => {
                let p = r.degree();
                let n = p + 1 + r.below(4);
                let clamped = r.chance(2, 3);
                let t = r.scaled_knots(p, n, clamped);
                let (ms, ks) = multiplicities(&t);
                StepCurve::BSpline(p, ms, ks, r.p3s(n))
            }
        }
    }
    pub fn json(&self) -> String {
        match self {
            StepCurve::Line(o, d, m) => format!("{{\"kind\":\"line\",\"o\":{},\"dir\":{},\"mag\":{}}}", v3(*o), v3(*d), f64s(*m)),
            StepCurve::Circle(pl, radius) => format!("{{\"kind\":\"circle\",\"pl\":{},\"r\":{}}}", pl.json(), f64s(*radius)),
            StepCurve::Polyline(vs) => format!("{{\"kind\":\"polyline\",\"vs\":{}}}", v3s(vs)),
            StepCurve::BSpline(p, ms, ks, ps) => {
                format!("{{\"kind\":\"bspline\",\"p\":{},\"ms\":{},\"ks\":{},\"ps\":{}}}", p, us_(ms), fs(ks), v3s(ps))
            }
            StepCurve::Unsupported => "{\"kind\":\"unsupported\"}".into(),
        }
    }
    pub fn domain(&self) -> (f64, f64) {
        match self {
            StepCurve::Line(..) => (-8.0, 8.0),
            StepCurve::Circle(..) => (0.0, std::f64::consts::TAU),
            StepCurve::BSpline(p, ms, ks, _) => {
                let t = expand(ms, ks);
                (t[*p], t[t.len() - 1 - *p])
            }
            _ => (0.0, 1.0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum StepSurface {
    Plane(Placement),
    Cylinder(Placement, f64),
    Net { kind: char, net: Vec<Vec<Point3>>, p: usize, q: usize, t: (Vec<usize>, Vec<f64>), s: (Vec<usize>, Vec<f64>), ws: Vec<Vec<f64>> },
    Revolution(Point3, Option<Vec3>, StepCurve),
    Unsupported,
}

impl StepSurface {
    pub fn random(r: &mut Rng) -> StepSurface {
        match r.below(8) {
            0 | 1 => StepSurface::Plane(Placement::random(r)),
            2 => {
                let pl = Placement::random(r);
                StepSurface::Cylinder(pl, r.int(1, 64) as f64 / 8.0)
            }
            3 => {
                let (_, _, z) = r.frame();
                let axis = if r.chance(1, 3) { None } else { Some(z * length(r)) };
                StepSurface::Revolution(r.p3(), axis, StepCurve::random(r))
            }
            k => {
                let kind = [b'z', b'u', b'k', b'r'][k - 4] as char;
                let (p, q) = (r.degree(), r.degree());
                let (n, m) = if kind == 'z' { (p + 1, q + 1) } else { (p + 1 + r.below(3), q + 1 + r.below(3)) };
                let (c1, c2) = (r.chance(2, 3), r.chance(2, 3));
                let t = multiplicities(&r.scaled_knots(p, n, c1));
                let s = multiplicities(&r.scaled_knots(q, m, c2));
                StepSurface::Net {
                    kind,
                    net: (0..n).map(|_| r.d3s(m)).collect(),
                    p,
                    q,
                    t,
                    s,
                    ws: (0..n).map(|_| (0..m).map(|_| r.weight()).collect()).collect(),
                }
            }
        }
    }
    pub fn json(&self) -> String {
        match self {
            StepSurface::Plane(pl) => format!("{{\"kind\":\"plane\",\"pl\":{}}}", pl.json()),
            StepSurface::Cylinder(pl, radius) => format!("{{\"kind\":\"cylinder\",\"pl\":{},\"r\":{}}}", pl.json(), f64s(*radius)),
            StepSurface::Revolution(o, axis, c) => {
                format!("{{\"kind\":\"revolution\",\"o\":{},\"axis\":{},\"c\":{}}}", v3(*o), opt(axis), c.json())
            }
            StepSurface::Net { kind, net, p, q, t, s, ws } => {
                let name = match kind {
                    'z' => "bezier",
                    'u' => "uniform",
                    'k' => "knots",
                    _ => "rational",
                };
                let mut o = format!("{{\"kind\":\"{}\",\"p\":{},\"q\":{},\"net\":{}", name, p, q, list(net, |row| v3s(row)));
                if matches!(kind, 'k' | 'r') {
                    o += &format!(",\"tm\":{},\"tk\":{},\"sm\":{},\"sk\":{}", us_(&t.0), fs(&t.1), us_(&s.0), fs(&s.1));
                }
                if *kind == 'r' {
                    o += &format!(",\"ws\":{}", list(ws, |row| fs(row)));
                }
                o + "}"
            }
            StepSurface::Unsupported => "{\"kind\":\"unsupported\"}".into(),
        }
    }
    pub fn domain(&self) -> ((f64, f64), (f64, f64)) {
        let d = |p: usize, t: &(Vec<usize>, Vec<f64>)| {
            let t = expand(&t.0, &t.1);
            (t[p], t[t.len() - 1 - p])
        };
        match self {
            StepSurface::Plane(_) => ((-8.0, 8.0), (-8.0, 8.0)),
            StepSurface::Cylinder(..) => ((-8.0, 8.0), (-7.0, 7.0)),
            StepSurface::Revolution(_, _, c) => (c.domain(), (-7.0, 7.0)),
            StepSurface::Net { kind: 'k' | 'r', p, q, t, s, .. } => (d(*p, t), d(*q, s)),
            _ => ((0.0, 1.0), (0.0, 1.0)),
        }
    }
}

pub fn is_plane(s: &Box<dyn Surface>) -> Option<&Plane> {
    s.downcast_ref::<Plane>()
}
pub fn curve_at(s: &CurveSegment<Box<dyn Curve>>, u: f64) -> Point3 {
    s.curve.get_point(u)
}
