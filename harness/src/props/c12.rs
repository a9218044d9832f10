//! C12: normals of surface patches.
use super::c11::ranges;
use crate::gen::AnySurface;
use crate::rec::*;
use crate::Case;
use geom3d::surface::*;
use geom3d::*;

pub fn run(c: &mut Case) {
    let r = &mut c.rng;
    let mut surface = AnySurface::any(r);
    let mut exact = false;
    if r.chance(4, 5) {
        let clamped = r.chance(5, 6);
        surface = AnySurface::bspline(r, clamped);
        if let AnySurface::BSpline((p, q), (t, s), m, ps) = &mut surface {
            // a border, or nothing, collapses to a point: no normal there
            let m = *m;
            let n = ps.len() / m;
            let (du, dv) = (t[t.len() - 1] - t[0], s[s.len() - 1] - s[0]);
            // inner knots of full multiplicity are jumps; dyadic knots give exact zeros
            let plain = |t: &[f64]| t.iter().all(|k| (k * 64.0).fract() == 0.0);
            if clamped && plain(t) && plain(s) && du > 0.0 && dv > 0.0 {
                exact = true;
                match r.below(6) {
                    0 => (0..m).for_each(|j| ps[j] = ps[0]),
                    1 => (0..m).for_each(|j| ps[(n - 1) * m + j] = ps[(n - 1) * m]),
                    2 => (0..n).for_each(|i| ps[i * m] = ps[0]),
                    3 => (0..n).for_each(|i| ps[i * m + m - 1] = ps[m - 1]),
                    4 => {
                        // two opposite borders
                        (0..m).for_each(|j| ps[j] = ps[0]);
                        (0..m).for_each(|j| ps[(n - 1) * m + j] = ps[(n - 1) * m]);
                    }
                    _ => {}
                }
                let _ = (p, q);
            }
        }
    }
    let k = r.unit_of_length();
    surface = surface.scaled(k);
    let ((a, b), (c0, d)) = if exact { surface.domain() } else { ranges(r, &surface) };
    let most = if r.chance(1, 10) { 9 } else { 4 };
    let (n, m) = (r.int(1, most) as usize, r.int(1, most) as usize);
    let range = ((a, b), (c0, d));
    let provides = matches!(surface, AnySurface::BSpline(..));
    let mesh = match (&surface, r.chance(1, 2)) {
        (AnySurface::BSpline(deg, (t, s), m0, ps), true) => {
            let surface = BSplineSurface::new(Grid::from_vec(ps.clone(), *m0), (KnotVector::new(t.clone()), KnotVector::new(s.clone())), *deg);
            let patch = SurfacePatch { surface, parameter_range: range, parameter_division: (n, m) };
            guard(|| patch.get_triangle_mesh())
        }
        _ => {
            let patch = SurfacePatch { surface: surface.boxed(), parameter_range: range, parameter_division: (n, m) };
            guard(|| patch.get_triangle_mesh())
        }
    };
    let mut params = Vec::new();
    for _ in 0..3 {
        params.push(Point2::new(r.range(a.min(b), a.max(b)), r.range(c0.min(d), c0.max(d))));
    }
    c.ev(Ev::new("surface").raw("f", &surface.json()));
    c.ev(Ev::new("patch")
        .f("a", a)
        .f("b", b)
        .f("c", c0)
        .f("d", d)
        .n("n", n as i64)
        .n("m", m as i64)
        .b("provides", provides)
        .b("exact", exact)
        .out(mesh, |e, x| e.n("count", x.vertices.len() as i64).v3s("ns", &x.normals)));
    // a grid of more vertices than 16 bits count, of which some are looked at
    let r = &mut c.rng;
    if provides && r.chance(1, 60) {
        let (n, m) = if r.chance(1, 2) { (300, 230) } else { (140, 480) };
        let domain = surface.domain();
        let ((a, b), (c0, d)) = domain;
        let patch = SurfacePatch { surface: surface.boxed(), parameter_range: domain, parameter_division: (n, m) };
        let total = (n + 1) * (m + 1);
        let ks: Vec<i64> = (0..40).map(|i| if i < 8 { total - 1 - i * (m / 3) } else if i < 14 { 65_530 + i } else { r.below(total) } as i64).collect();
        let mesh = guard(|| patch.get_triangle_mesh());
        c.ev(Ev::new("vast").f("a", a).f("b", b).f("c", c0).f("d", d).n("n", n as i64).n("m", m as i64).raw("ks", &is(&ks)).out(mesh, |e, x| {
            let ns: Vec<Vec3> = ks.iter().map(|k| x.normals.get(*k as usize).copied().unwrap_or(Vec3::new(f64::NAN, 0.0, 0.0))).collect();
            e.n("count", x.vertices.len() as i64).n("normals", x.normals.len() as i64).v3s("ns", &ns)
        }));
    }
    let boxed = surface.boxed();
    let us: Vec<f64> = params.iter().map(|p| p.x).collect();
    let vs: Vec<f64> = params.iter().map(|p| p.y).collect();
    c.ev(Ev::new("normals").fs("us", &us).fs("vs", &vs).b("provides", provides).out(guard(|| boxed.get_normals(&params)), |e, n| e.v3s("ns", &n)));
}
