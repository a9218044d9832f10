//! C09: analytic surfaces.
use crate::gen::AnySurface;
use crate::rec::*;
use crate::Case;
use geom3d::surface::*;
use geom3d::*;

pub fn run(c: &mut Case) {
    let r = &mut c.rng;
    let (x, y, z) = r.frame();
    let k = r.unit_of_length();
    let o = r.p3() * k;
    let radius = k * if r.chance(1, 2) { r.int(1, 64) as f64 / 8.0 } else { r.range(0.01, 100.0) };
    let mut plane = None;
    let mut cyl = None;
    let surface: Box<dyn Surface>;
    let json;
    let mut params: Vec<(f64, f64)> = Vec::new();
    match r.below(6) {
        0 => {
            json = format!("{{\"kind\":\"plane\",\"o\":{},\"x\":{},\"y\":{}}}", v3(o), v3(x), v3(y));
            let p = || Plane { origin: o, normal: z, u_axis: x, v_axis: y };
            surface = Box::new(p());
            plane = Some(p());
            for _ in 0..4 {
                params.push((r.coord() * k, r.coord() * k));
            }
        }
        1 | 2 => {
            json = format!("{{\"kind\":\"cylinder\",\"o\":{},\"axis\":{},\"x\":{},\"r\":{}}}", v3(o), v3(z), v3(x), f64s(radius));
            let p = || Cylinder { origin: o, axis: z, ref_dir: x, radius };
            surface = Box::new(p());
            cyl = Some(p());
            for _ in 0..4 {
                params.push((r.coord() * k, r.angle()));
            }
        }
        3 => {
            let s = AnySurface::section(r).scaled(k);
            // the origin may be anywhere on the axis
            let o = if r.chance(1, 3) { o + z * (k * r.pick(&[1.0, -1.0]) * (10.0f64).powi(r.int(2, 6) as i32)) } else { o };
            json = format!("{{\"kind\":\"spin\",\"o\":{},\"axis\":{},\"c\":{}}}", v3(o), v3(z), s.json());
            let (a, b) = s.domain();
            surface = Box::new(SpinSurface { origin: o, axis: z, section: s.boxed() });
            for _ in 0..4 {
                params.push((r.range(a, b), r.angle()));
            }
        }
        4 => {
            let (p, s) = (AnySurface::section(r).scaled(k), AnySurface::section(r).scaled(k));
            json = format!("{{\"kind\":\"sweep\",\"path\":{},\"c\":{}}}", p.json(), s.json());
            let ((a, b), (a2, b2)) = (p.domain(), s.domain());
            surface = Box::new(SweepSurface { path: p.boxed(), section: s.boxed() });
            for _ in 0..4 {
                params.push((r.range(a, b), r.range(a2, b2)));
            }
        }
        _ => {
            json = format!("{{\"kind\":\"umbrella\",\"r\":{}}}", f64s(radius));
            surface = Box::new(Umbrella { radius });
            for _ in 0..5 {
                params.push((r.range(-4.0, 4.0), r.angle()));
            }
        }
    }
    c.ev(Ev::new("surface").raw("f", &json));
    for (u, v) in params {
        let e = Ev::new("eval").f("u", u).f("v", v).out(guard(|| surface.get_point(u, v)), |e, p| e.v3("out", p));
        c.ev(e);
    }
    if let Some(p) = plane {
        for _ in 0..4 {
            let q = c.rng.p3() * k;
            let e = Ev::new("project").v3("q", q).out(guard(|| p.project(q)), |e, p| e.v2("out", p));
            c.ev(e);
        }
    }
    if let Some(p) = cyl {
        for i in 0..8 {
            let special = [0.0, 1.0, 2.0, 3.0];
            let mut a = if i < 4 { special[i] * std::f64::consts::FRAC_PI_2 } else { c.rng.range(0.0, 6.2) };
            if c.rng.chance(1, 4) {
                // beside a special direction
                a += c.rng.pick(&[1.0, -1.0]) * c.rng.pick(&[1e-3, 1e-6, 1e-8, 1e-12, 1e-16, 1e-30]);
            }
            let zq = c.rng.int(-64, 64) as f64 / 16.0 * k;
            let on = o + z * zq + (x * a.cos() + y * a.sin()) * radius;
            let q = if c.rng.chance(1, 2) { on } else { c.rng.p3() * k };
            let e = Ev::new("project").v3("q", q).out(guard(|| p.project(q)), |e, p| e.v2("out", p));
            c.ev(e);
            // ring: the centre of projection beyond the point, on the side the library uses, or below it
            let d = match c.rng.below(4) {
                3 => zq.min(0.0) - c.rng.range(0.5, 20.0) * k,
                0 => zq.abs() * 2.0 + k,
                1 => zq.max(0.0) + c.rng.range(0.5, 20.0) * k,
                _ => 20.0 * k,
            };
            let e = Ev::new("ring").v3("q", on).f("d", d).out(
                guard(|| {
                    let i = p.project_to_ring(on, d);
                    (i, p.generate_point_from_ring(i, d))
                }),
                |e, (i, b)| e.v2("img", i).v3("back", b),
            );
            c.ev(e);
        }
    }
}
