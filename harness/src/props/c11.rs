//! C11: meshes of surface patches.
use crate::gen::{AnyCurve, AnySurface, Rng};
use crate::rec::*;
use crate::Case;
use geom3d::surface::*;
use geom3d::*;

/// no knot of full multiplicity inside: the position does not jump
fn unbroken(t: &[f64], p: usize) -> bool {
    t.iter().all(|k| *k == t[0] || *k == t[t.len() - 1] || t.iter().filter(|x| *x == k).count() <= p)
}
fn curve_ok(c: &AnyCurve) -> bool {
    match c {
        AnyCurve::BSpline(p, t, _) => unbroken(t, *p),
        _ => true,
    }
}
pub fn continuous(s: &AnySurface) -> bool {
    match s {
        AnySurface::Spin(_, _, c) => curve_ok(c),
        AnySurface::Sweep(a, b) => curve_ok(a) && curve_ok(b),
        AnySurface::BSpline((p, q), (t, s), ..) => unbroken(t, *p) && unbroken(s, *q),
        AnySurface::RBSpline((p, q), (t, s), ..) => unbroken(t, *p) && unbroken(s, *q),
        _ => true,
    }
}
pub fn ranges(r: &mut Rng, s: &AnySurface) -> ((f64, f64), (f64, f64)) {
    let ((a, b), (c, d)) = s.domain();
    let (mut a, mut b, mut c, mut d) = (a, b, c, d);
    if r.chance(1, 3) {
        let at = |x: f64, y: f64, k: i64| x + (y - x) * k as f64 / 16.0;
        (a, b) = (at(a, b, r.int(0, 7)), at(a, b, r.int(8, 16)));
        (c, d) = (at(c, d, r.int(0, 7)), at(c, d, r.int(8, 16)));
    }
    if r.chance(1, 6) {
        (a, b) = (b, a);
    }
    if r.chance(1, 6) {
        (c, d) = (d, c);
    }
    ((a, b), (c, d))
}

/// a mesh too large to look at all of it: some triangles with their corners
fn big(c: &mut Case, surface: AnySurface, ((a, b), (c0, d)): ((f64, f64), (f64, f64))) {
    let r = &mut c.rng;
    let (n, m) = r.pick(&[(300, 300), (15, 17), (16, 16), (1, 300), (300, 2), (255, 256), (40, 60), (260, 255)]);
    let some: Vec<usize> = (0..24)
        .map(|i| match i {
            0..=3 => i,
            4..=7 => 2 * n * m - 1 - (i - 4),
            8..=11 => (2 * m * (n / 2) + i) % (2 * n * m),
            _ => r.below(2 * n * m),
        })
        .collect();
    let patch = SurfacePatch { surface: surface.boxed(), parameter_range: ((a, b), (c0, d)), parameter_division: (n, m) };
    c.ev(Ev::new("surface").raw("f", &surface.json()));
    let head = Ev::new("big").f("a", a).f("b", b).f("c", c0).f("d", d).n("n", n as i64).n("m", m as i64);
    c.ev(head.out(guard(|| patch.get_triangle_mesh()), |e, x| {
        let ts: Vec<u32> = some.iter().flat_map(|k| x.triangles.get(3 * k..3 * k + 3).unwrap_or(&[0, 0, 0]).to_vec()).collect();
        let vs: Vec<Point3> = ts.iter().map(|i| x.vertices.get(*i as usize).cloned().unwrap_or(Point3::splat(f64::NAN))).collect();
        e.n("nv", x.vertices.len() as i64).n("nt", x.triangles.len() as i64).raw("which", &is(&some.iter().map(|k| *k as i64).collect::<Vec<_>>())).raw("ts", &tris(&ts)).v3s("vs", &vs)
    }));
}

pub fn run(c: &mut Case) {
    let scn = c.scn.clone();
    let r = &mut c.rng;
    let mut surface = AnySurface::any(r);
    while !continuous(&surface) {
        surface = AnySurface::any(r);
    }
    let k = r.unit_of_length();
    surface = surface.scaled(k);
    let ((a, b), (c0, d)) = ranges(r, &surface);
    let (n, m) = match scn {
        Some(s) => (s[0] as usize, s[1] as usize),
        None if r.chance(1, 50) => return big(c, surface, ((a, b), (c0, d))),
        None if r.chance(1, 10) => r.pick(&[(1, 20), (20, 1), (2, 17), (16, 3), (8, 8), (7, 11)]),
        None => (r.int(1, 5) as usize, r.int(1, 5) as usize),
    };
    let patch = SurfacePatch { surface: surface.boxed(), parameter_range: ((a, b), (c0, d)), parameter_division: (n, m) };
    c.ev(Ev::new("surface").raw("f", &surface.json()));
    let head = |op: &str| Ev::new(op).f("a", a).f("b", b).f("c", c0).f("d", d).n("n", n as i64).n("m", m as i64);
    c.ev(head("patch").out(guard(|| patch.get_triangle_mesh()), |e, x| e.v3s("vs", &x.vertices).raw("ts", &tris(&x.triangles))));
    c.ev(head("grid").out(guard(|| patch.get_point_grid()), |e, g| {
        e.n("rows", g.rows() as i64).n("cols", g.cols() as i64).v3s("vs", &g.into_vec())
    }));
    if c.idx % 4 == 0 {
        let points = Grid::from_vec(vec![Point3::ZERO; (n + 1) * (m + 1)], m + 1);
        let e = Ev::new("triangles").n("n", n as i64).n("m", m as i64);
        c.ev(e.out(guard(|| mesh::create_triangles(&points)), |e, ts| e.raw("ts", &tris(&ts))));
    }
}
