//! Deterministic generators of geometric inputs.
use geom3d::*;

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x5851f42d4c957f2d);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() >> 11) as usize % n
    }
    /// a..=b
    pub fn int(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as usize) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    /// [0,1)
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// a coordinate: mostly small dyadic numbers, sometimes any double of moderate size
    pub fn coord(&mut self) -> f64 {
        match self.below(8) {
            0 => self.range(-1000.0, 1000.0),
            1 => self.range(-1.0, 1.0),
            2 => self.int(-3, 3) as f64,
            _ => self.int(-320, 320) as f64 / 32.0,
        }
    }
    pub fn p3(&mut self) -> Point3 {
        let (x, y, z) = (self.coord(), self.coord(), self.coord());
        Point3::new(x, y, z)
    }
    pub fn p3s(&mut self, n: usize) -> Vec<Point3> {
        (0..n).map(|_| self.p3()).collect()
    }
    /// small dyadic points
    pub fn d3(&mut self) -> Point3 {
        let mut c = || self.int(-128, 128) as f64 / 16.0;
        Point3::new(c(), c(), c())
    }
    pub fn d3s(&mut self, n: usize) -> Vec<Point3> {
        (0..n).map(|_| self.d3()).collect()
    }
    /// a unit of length: what the coordinates are measured in does not matter
    pub fn unit_of_length(&mut self) -> f64 {
        match self.below(8) {
            0 => (2.0f64).powi(self.int(-20, -3) as i32),
            1 => (2.0f64).powi(self.int(3, 20) as i32),
            _ => 1.0,
        }
    }
    /// mostly small degrees
    pub fn degree(&mut self) -> usize {
        if self.chance(1, 5) { self.int(4, 6) as usize } else { self.int(1, 3) as usize }
    }
    pub fn weight(&mut self) -> f64 {
        match self.below(4) {
            0 => 1.0,
            1 => std::f64::consts::FRAC_1_SQRT_2,
            2 => self.int(1, 16) as f64 / 4.0,
            _ => self.range(0.25, 4.0),
        }
    }
    /// weighted points (wx, wy, wz, w)
    pub fn p4s(&mut self, n: usize) -> Vec<Point4> {
        // only the ratios of the weights count
        let common = match self.below(6) {
            0 => (2.0f64).powi(self.int(-40, -10) as i32),
            1 => (2.0f64).powi(self.int(5, 40) as i32),
            _ => 1.0,
        };
        let wide = self.chance(1, 6);
        (0..n)
            .map(|_| {
                let w = common * if wide { (10.0f64).powi(self.int(-3, 3) as i32) } else { self.weight() };
                let p = self.d3();
                Point4::new(p.x * w, p.y * w, p.z * w, w)
            })
            .collect()
    }
    /// an angle: special values or anything within about two turns
    pub fn angle(&mut self) -> f64 {
        use std::f64::consts::*;
        match self.below(7) {
            6 => {
                // beside a special angle
                let off = self.pick(&[1e-2, 1e-3, 3e-4, 1e-4, 3e-5, 1e-5, 1e-6, 1e-7, 1e-9]);
                self.int(-4, 4) as f64 * FRAC_PI_2 + off * self.pick(&[1.0, -1.0])
            }
            0 => self.int(-8, 8) as f64 * FRAC_PI_4,
            1 => self.int(-12, 12) as f64 * FRAC_PI_6,
            2 => self.int(-400, 400) as f64 / 64.0,
            _ => self.range(-12.0, 12.0),
        }
    }
    /// right-handed orthonormal frames: axis-parallel, Pythagorean or random
    pub fn frame(&mut self) -> (Vec3, Vec3, Vec3) {
        match self.below(4) {
            0 => {
                let mut a = [Vec3::X, Vec3::Y, Vec3::Z];
                self.shuffle(&mut a);
                let (x, y) = (a[0] * self.pick(&[1.0, -1.0]), a[1] * self.pick(&[1.0, -1.0]));
                (x, y, x.cross(y))
            }
            1 => {
                // rational rotation from an integer quaternion
                loop {
                    let q = [self.int(-3, 3), self.int(-3, 3), self.int(-3, 3), self.int(-3, 3)];
                    let n = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]) as f64;
                    if n == 0.0 {
                        continue;
                    }
                    let [w, x, y, z] = [q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64];
                    let r0 = Vec3::new(w * w + x * x - y * y - z * z, 2.0 * (x * y + w * z), 2.0 * (x * z - w * y)) / n;
                    let r1 = Vec3::new(2.0 * (x * y - w * z), w * w - x * x + y * y - z * z, 2.0 * (y * z + w * x)) / n;
                    let r2 = Vec3::new(2.0 * (x * z + w * y), 2.0 * (y * z - w * x), w * w - x * x - y * y + z * z) / n;
                    return (r0, r1, r2);
                }
            }
            _ => loop {
                let a = Vec3::new(self.range(-1.0, 1.0), self.range(-1.0, 1.0), self.range(-1.0, 1.0));
                let b = Vec3::new(self.range(-1.0, 1.0), self.range(-1.0, 1.0), self.range(-1.0, 1.0));
                let c = a.cross(b);
                if a.length() < 0.1 || c.length() < 0.1 {
                    continue;
                }
                let x = a.normalize();
                let z = c.normalize();
                return (x, z.cross(x).normalize(), z);
            },
        }
    }
    /// a knot vector for `n` control points of degree `p`, n > p
    pub fn knots(&mut self, p: usize, n: usize, clamped: bool) -> Vec<f64> {
        let m = n + p + 1;
        let wild = self.chance(1, 4);
        let mut t = self.pick(&[0.0, 0.0, 0.0, 1.0, -2.5, 17.25, -100.0]);
        if wild {
            t = self.range(-10.0, 10.0);
        }
        let scale = self.pick(&[1.0, 1.0, 0.25, 8.0]);
        let uniform = self.chance(1, 4);
        let mut step = |r: &mut Rng| {
            if uniform {
                scale
            } else if wild {
                scale * r.range(0.05, 2.0)
            } else {
                scale * r.int(1, 8) as f64 / 4.0
            }
        };
        let mut ks = Vec::with_capacity(m);
        if clamped {
            ks.extend(std::iter::repeat(t).take(p + 1));
            let mut inner = m - 2 * (p + 1);
            while inner > 0 {
                t += step(self);
                let mult = if self.chance(2, 3) { 1 } else { self.int(1, p as i64 + 1) as usize }.min(inner);
                ks.extend(std::iter::repeat(t).take(mult));
                inner -= mult;
            }
            t += step(self);
            ks.extend(std::iter::repeat(t).take(p + 1));
        } else {
            while ks.len() < m {
                let mult = if self.chance(3, 4) { 1 } else { self.int(1, p as i64 + 1) as usize };
                let mult = mult.min(m - ks.len());
                ks.extend(std::iter::repeat(t).take(mult));
                t += step(self);
            }
            // the valid domain must not be empty
            if ks[p] >= ks[n] {
                return self.knots(p, n, true);
            }
        }
        ks
    }
    /// a power of two, mostly 1, to measure lengths or parameters in other units
    pub fn unit_of_measure(&mut self) -> f64 {
        match self.below(8) {
            0 => (2.0f64).powi(self.int(-28, -12) as i32),
            1 => (2.0f64).powi(self.int(10, 24) as i32),
            _ => 1.0,
        }
    }
    /// like `knots`, in any unit
    pub fn scaled_knots(&mut self, p: usize, n: usize, clamped: bool) -> Vec<f64> {
        let k = self.unit_of_measure();
        self.knots(p, n, clamped).into_iter().map(|t| t * k).collect()
    }
    /// interesting parameters of a knot vector
    pub fn params(&mut self, t: &[f64], count: usize) -> Vec<f64> {
        let m = t.len();
        let (a, b) = (t[0], t[m - 1]);
        let mut us = vec![a, b];
        for _ in 0..count {
            let u = match self.below(6) {
                0 => t[self.below(m)],
                1 => {
                    let i = self.below(m - 1);
                    (t[i] + t[i + 1]) / 2.0
                }
                2 => {
                    // just beside a knot
                    let k = t[self.below(m)];
                    let k = if self.chance(1, 2) { k + (b - a) * 1e-9 } else { k - (b - a) * 1e-9 };
                    k.max(a).min(b)
                }
                3 => a + (b - a) * self.int(0, 64) as f64 / 64.0,
                _ => self.range(a, b),
            };
            us.push(u.max(a).min(b));
        }
        us
    }
}

use crate::rec::*;
use geom3d::curve::*;

/// a curve together with its description for the specification
#[derive(Clone, Debug)]
pub enum AnyCurve {
    Line(Point3, Vec3),
    Circle(Point3, f64, Vec3, Vec3),
    Polyline(Vec<Point3>),
    Bezier(Vec<Point3>),
    RBezier(Vec<Point4>),
    BSpline(usize, Vec<f64>, Vec<Point3>),
    RBSpline(usize, Vec<f64>, Vec<Point4>),
}

impl AnyCurve {
    pub fn boxed(&self) -> Box<dyn Curve> {
        match self.clone() {
            AnyCurve::Line(origin, direction) => Box::new(Line { origin, direction }),
            AnyCurve::Circle(center, radius, axis, ref_dir) => Box::new(Circle { center, radius, axis, ref_dir }),
            AnyCurve::Polyline(vs) => Box::new(Polyline::new(vs)),
            AnyCurve::Bezier(ps) => Box::new(BezierCurve { control_points: ps }),
            AnyCurve::RBezier(ps) => Box::new(BezierCurve { control_points: ps }),
            AnyCurve::BSpline(p, t, ps) => Box::new(BSplineCurve { control_points: ps, knots: KnotVector::new(t), degree: p as u8 }),
            AnyCurve::RBSpline(p, t, ps) => Box::new(BSplineCurve { control_points: ps, knots: KnotVector::new(t), degree: p as u8 }),
        }
    }
    pub fn json(&self) -> String {
        let w = |ps: &[Point4]| list(ps, |p| v4(*p));
        match self {
            AnyCurve::Line(o, d) => format!("{{\"kind\":\"line\",\"o\":{},\"d\":{}}}", v3(*o), v3(*d)),
            AnyCurve::Circle(o, r, a, x) => {
                format!("{{\"kind\":\"circle\",\"o\":{},\"r\":{},\"axis\":{},\"x\":{}}}", v3(*o), f64s(*r), v3(*a), v3(*x))
            }
            AnyCurve::Polyline(vs) => format!("{{\"kind\":\"polyline\",\"vs\":{}}}", v3s(vs)),
            AnyCurve::Bezier(ps) => format!("{{\"kind\":\"bezier\",\"ps\":{}}}", v3s(ps)),
            AnyCurve::RBezier(ps) => format!("{{\"kind\":\"bezier\",\"ps\":{}}}", w(ps)),
            AnyCurve::BSpline(p, t, ps) => format!("{{\"kind\":\"bspline\",\"p\":{},\"t\":{},\"ps\":{}}}", p, fs(t), v3s(ps)),
            AnyCurve::RBSpline(p, t, ps) => format!("{{\"kind\":\"bspline\",\"p\":{},\"t\":{},\"ps\":{}}}", p, fs(t), w(ps)),
        }
    }
    /// the same curve k times as large
    pub fn scaled(self, k: f64) -> AnyCurve {
        let p3 = |ps: Vec<Point3>| ps.into_iter().map(|p| p * k).collect::<Vec<_>>();
        let p4 = |ps: Vec<Point4>| ps.into_iter().map(|p| Point4::new(p.x * k, p.y * k, p.z * k, p.w)).collect::<Vec<_>>();
        match self {
            AnyCurve::Line(o, d) => AnyCurve::Line(o * k, d * k),
            AnyCurve::Circle(o, r, a, x) => AnyCurve::Circle(o * k, r * k, a, x),
            AnyCurve::Polyline(vs) => AnyCurve::Polyline(p3(vs)),
            AnyCurve::Bezier(vs) => AnyCurve::Bezier(p3(vs)),
            AnyCurve::RBezier(vs) => AnyCurve::RBezier(p4(vs)),
            AnyCurve::BSpline(p, t, vs) => AnyCurve::BSpline(p, t, p3(vs)),
            AnyCurve::RBSpline(p, t, vs) => AnyCurve::RBSpline(p, t, p4(vs)),
        }
    }
    /// a parameter range to use the curve on
    pub fn domain(&self) -> (f64, f64) {
        match self {
            AnyCurve::Line(..) => (-8.0, 8.0),
            AnyCurve::Circle(..) => (0.0, std::f64::consts::TAU),
            AnyCurve::BSpline(p, t, _) | AnyCurve::RBSpline(p, t, _) => (t[*p], t[t.len() - 1 - *p]),
            _ => (0.0, 1.0),
        }
    }
    pub fn line(r: &mut Rng) -> AnyCurve {
        let o = r.p3();
        let d = match r.below(3) {
            0 => {
                let (x, y, z) = r.frame();
                r.pick(&[x, y, z])
            }
            _ => loop {
                let d = r.d3();
                if d.length() > 0.01 {
                    break d;
                }
            },
        };
        AnyCurve::Line(o, d)
    }
    pub fn circle(r: &mut Rng) -> AnyCurve {
        let (x, _, z) = r.frame();
        let radius = if r.chance(1, 2) { r.int(1, 64) as f64 / 8.0 } else { r.range(0.01, 100.0) };
        AnyCurve::Circle(r.p3(), radius, z, x)
    }
    pub fn polyline(r: &mut Rng, max: i64) -> AnyCurve {
        let n = r.int(2, max) as usize;
        let mut vs = if r.chance(1, 2) { r.d3s(n) } else { r.p3s(n) };
        for i in 1..n {
            if r.chance(1, 12) {
                vs[i] = vs[i - 1];
            } else if r.chance(1, 12) && i >= 2 {
                vs[i] = (vs[i - 1] + vs[i - 2]) * 0.5; // turns back
            }
        }
        if vs.iter().all(|v| *v == vs[0]) {
            vs[n - 1] += Vec3::X;
        }
        AnyCurve::Polyline(vs)
    }
    pub fn bezier(r: &mut Rng, degree: usize) -> AnyCurve {
        AnyCurve::Bezier(r.d3s(degree + 1))
    }
    pub fn bspline(r: &mut Rng, p: usize) -> AnyCurve {
        let n = p + 1 + r.below(5);
        let clamped = r.chance(2, 3);
        let t = r.scaled_knots(p, n, clamped);
        AnyCurve::BSpline(p, t, r.d3s(n))
    }
}

use geom3d::surface::*;

/// a surface together with its description for the specification
#[derive(Clone, Debug)]
pub enum AnySurface {
    Plane(Point3, Vec3, Vec3),
    Cylinder(Point3, Vec3, Vec3, f64),
    Spin(Point3, Vec3, AnyCurve),
    Sweep(AnyCurve, AnyCurve),
    Umbrella(f64),
    Bezier(usize, Vec<Point3>),
    RBezier(usize, Vec<Point4>),
    BSpline((usize, usize), (Vec<f64>, Vec<f64>), usize, Vec<Point3>),
    RBSpline((usize, usize), (Vec<f64>, Vec<f64>), usize, Vec<Point4>),
}

fn rows<T: Copy>(ps: &[T], cols: usize, f: impl Fn(T) -> String) -> String {
    let rs: Vec<Vec<T>> = ps.chunks(cols).map(|c| c.to_vec()).collect();
    list(&rs, |r| list(r, |p| f(*p)))
}

impl AnySurface {
    pub fn boxed(&self) -> Box<dyn Surface> {
        match self.clone() {
            AnySurface::Plane(o, x, y) => Box::new(Plane { origin: o, normal: x.cross(y), u_axis: x, v_axis: y }),
            AnySurface::Cylinder(o, z, x, r) => Box::new(Cylinder { origin: o, axis: z, ref_dir: x, radius: r }),
            AnySurface::Spin(o, z, s) => Box::new(SpinSurface { origin: o, axis: z, section: s.boxed() }),
            AnySurface::Sweep(p, s) => Box::new(SweepSurface { path: p.boxed(), section: s.boxed() }),
            AnySurface::Umbrella(r) => Box::new(Umbrella { radius: r }),
            AnySurface::Bezier(m, ps) => Box::new(BezierSurface::new(Grid::from_vec(ps, m))),
            AnySurface::RBezier(m, ps) => Box::new(BezierSurface::new(Grid::from_vec(ps, m))),
            AnySurface::BSpline(d, (t, s), m, ps) => {
                Box::new(BSplineSurface::new(Grid::from_vec(ps, m), (KnotVector::new(t), KnotVector::new(s)), d))
            }
            AnySurface::RBSpline(d, (t, s), m, ps) => {
                Box::new(BSplineSurface::new(Grid::from_vec(ps, m), (KnotVector::new(t), KnotVector::new(s)), d))
            }
        }
    }
    pub fn json(&self) -> String {
        match self {
            AnySurface::Plane(o, x, y) => format!("{{\"kind\":\"plane\",\"o\":{},\"x\":{},\"y\":{}}}", v3(*o), v3(*x), v3(*y)),
            AnySurface::Cylinder(o, z, x, r) => {
                format!("{{\"kind\":\"cylinder\",\"o\":{},\"axis\":{},\"x\":{},\"r\":{}}}", v3(*o), v3(*z), v3(*x), f64s(*r))
            }
            AnySurface::Spin(o, z, s) => format!("{{\"kind\":\"spin\",\"o\":{},\"axis\":{},\"c\":{}}}", v3(*o), v3(*z), s.json()),
            AnySurface::Sweep(p, s) => format!("{{\"kind\":\"sweep\",\"path\":{},\"c\":{}}}", p.json(), s.json()),
            AnySurface::Umbrella(r) => format!("{{\"kind\":\"umbrella\",\"r\":{}}}", f64s(*r)),
            AnySurface::Bezier(m, ps) => format!("{{\"kind\":\"bezier\",\"net\":{}}}", rows(ps, *m, v3)),
            AnySurface::RBezier(m, ps) => format!("{{\"kind\":\"bezier\",\"net\":{}}}", rows(ps, *m, v4)),
            AnySurface::BSpline((p, q), (t, s), m, ps) => {
                format!("{{\"kind\":\"bspline\",\"p\":{},\"q\":{},\"t\":{},\"s\":{},\"net\":{}}}", p, q, fs(t), fs(s), rows(ps, *m, v3))
            }
            AnySurface::RBSpline((p, q), (t, s), m, ps) => {
                format!("{{\"kind\":\"bspline\",\"p\":{},\"q\":{},\"t\":{},\"s\":{},\"net\":{}}}", p, q, fs(t), fs(s), rows(ps, *m, v4))
            }
        }
    }
    /// a parameter rectangle to use the surface on
    pub fn domain(&self) -> ((f64, f64), (f64, f64)) {
        use std::f64::consts::TAU;
        match self {
            AnySurface::Plane(..) => ((-8.0, 8.0), (-8.0, 8.0)),
            AnySurface::Cylinder(..) => ((-8.0, 8.0), (0.0, TAU)),
            AnySurface::Spin(_, _, s) => (s.domain(), (0.0, TAU)),
            AnySurface::Sweep(p, s) => (p.domain(), s.domain()),
            AnySurface::Umbrella(..) => ((0.0, 3.0), (0.0, TAU)),
            AnySurface::BSpline((p, q), (t, s), ..) | AnySurface::RBSpline((p, q), (t, s), ..) => {
                ((t[*p], t[t.len() - 1 - *p]), (s[*q], s[s.len() - 1 - *q]))
            }
            _ => ((0.0, 1.0), (0.0, 1.0)),
        }
    }
    /// a curve of any kind
    pub fn section(r: &mut Rng) -> AnyCurve {
        let d = r.degree();
        match r.below(7) {
            0 => AnyCurve::line(r),
            1 => AnyCurve::circle(r),
            2 => AnyCurve::polyline(r, 5),
            3 => AnyCurve::bezier(r, d),
            4 => AnyCurve::RBezier(r.p4s(d + 1)),
            5 => {
                let n = d + 1 + r.below(4);
                let t = r.scaled_knots(d, n, true);
                AnyCurve::RBSpline(d, t, r.p4s(n))
            }
            _ => AnyCurve::bspline(r, d),
        }
    }
    /// the same surface k times as large
    pub fn scaled(self, k: f64) -> AnySurface {
        let p3 = |ps: Vec<Point3>| ps.into_iter().map(|p| p * k).collect::<Vec<_>>();
        let p4 = |ps: Vec<Point4>| ps.into_iter().map(|p| Point4::new(p.x * k, p.y * k, p.z * k, p.w)).collect::<Vec<_>>();
        match self {
            AnySurface::Plane(o, x, y) => AnySurface::Plane(o * k, x, y),
            AnySurface::Cylinder(o, z, x, r) => AnySurface::Cylinder(o * k, z, x, r * k),
            AnySurface::Spin(o, z, s) => AnySurface::Spin(o * k, z, s.scaled(k)),
            AnySurface::Sweep(p, s) => AnySurface::Sweep(p.scaled(k), s.scaled(k)),
            AnySurface::Umbrella(r) => AnySurface::Umbrella(r * k),
            AnySurface::Bezier(m, ps) => AnySurface::Bezier(m, p3(ps)),
            AnySurface::RBezier(m, ps) => AnySurface::RBezier(m, p4(ps)),
            AnySurface::BSpline(d, t, m, ps) => AnySurface::BSpline(d, t, m, p3(ps)),
            AnySurface::RBSpline(d, t, m, ps) => AnySurface::RBSpline(d, t, m, p4(ps)),
        }
    }
    pub fn bspline(r: &mut Rng, clamped: bool) -> AnySurface {
        let (p, q) = (r.degree(), r.degree());
        let (n, m) = (p + 1 + r.below(4), q + 1 + r.below(4));
        let (t, s) = (r.scaled_knots(p, n, clamped), r.scaled_knots(q, m, clamped));
        AnySurface::BSpline((p, q), (t, s), m, r.d3s(n * m))
    }
    pub fn any(r: &mut Rng) -> AnySurface {
        let (x, y, z) = r.frame();
        let o = r.d3();
        let radius = r.int(1, 64) as f64 / 8.0;
        match r.below(9) {
            0 => AnySurface::Plane(o, x, y),
            1 => AnySurface::Cylinder(o, z, x, radius),
            2 => AnySurface::Spin(o, z, Self::section(r)),
            3 => AnySurface::Sweep(Self::section(r), Self::section(r)),
            4 => AnySurface::Umbrella(radius),
            5 => {
                let (n, m) = (r.degree() + 1, r.degree() + 1);
                AnySurface::Bezier(m, r.d3s(n * m))
            }
            6 => {
                let (n, m) = (r.degree() + 1, r.degree() + 1);
                AnySurface::RBezier(m, r.p4s(n * m))
            }
            7 => {
                let (p, q) = (r.degree(), r.degree());
                let (n, m) = (p + 1 + r.below(3), q + 1 + r.below(3));
                let (t, s) = (r.scaled_knots(p, n, true), r.scaled_knots(q, m, true));
                AnySurface::RBSpline((p, q), (t, s), m, r.p4s(n * m))
            }
            _ => {
                let clamped = r.chance(2, 3);
                Self::bspline(r, clamped)
            }
        }
    }
}
