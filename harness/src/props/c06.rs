//! C06: evaluation of lines, circles and polylines.
use crate::gen::AnyCurve;
use crate::rec::*;
use crate::Case;
use geom3d::curve::*;

pub fn run(c: &mut Case) {
    let r = &mut c.rng;
    let curve = match r.below(4) {
        0 => AnyCurve::line(r),
        1 => AnyCurve::circle(r),
        _ => {
            let most = if r.chance(1, 10) { 40 } else { 8 };
            AnyCurve::polyline(r, most)
        }
    };
    // in any unit of length
    let k = r.unit_of_measure();
    let curve = match curve {
        AnyCurve::Line(o, d) => AnyCurve::Line(o * k, d * r.pick(&[1.0, k])),
        AnyCurve::Circle(o, rad, z, x) => AnyCurve::Circle(o * k, rad * k, z, x),
        AnyCurve::Polyline(vs) => {
            // now and then without extent
            let still = r.chance(1, 24);
            AnyCurve::Polyline(vs.iter().map(|v| if still { vs[0] * k } else { *v * k }).collect())
        }
        c => c,
    };
    let mut us: Vec<f64> = Vec::new();
    match &curve {
        AnyCurve::Line(..) => {
            for _ in 0..5 {
                us.push(r.coord());
            }
        }
        AnyCurve::Circle(..) => {
            for _ in 0..6 {
                let a = r.angle();
                us.push(if r.chance(1, 8) { a * 1000.0 } else { a });
            }
        }
        _ => {
            us.extend_from_slice(&[0.0, 1.0, 0.5, -0.25, 1.5, 1e-300, 1e-12]);
            us.push(r.unit() * 1e-7);
            us.push(1.0 - r.unit() * 1e-7);
            us.push(r.unit() * 1e-4);
            us.push(1.0 - r.unit() * 1e-4);
            // just below 1, where the sum of the segment lengths may fall short
            let mut x = 1.0f64;
            for _ in 0..3 {
                x = f64::from_bits(x.to_bits() - 1);
                us.push(x);
            }
            for _ in 0..6 {
                us.push(if r.chance(1, 2) { r.int(0, 64) as f64 / 64.0 } else { r.unit() });
            }
            // at the vertices
            if let AnyCurve::Polyline(vs) = &curve {
                let p = guard(|| Polyline::new(vs.clone()));
                if let Ok(p) = p {
                    let mut l = 0.0;
                    for s in &p.segment_lengths {
                        l += s;
                        us.push((l / p.length).min(1.0));
                    }
                }
            }
        }
    }
    c.ev(Ev::new("curve").raw("c", &curve.json()));
    if let AnyCurve::Polyline(vs) = &curve {
        let out = guard(|| Polyline::new(vs.clone()));
        c.ev(Ev::new("polyline").out(out, |e, p| {
            e.v3("start", p.start()).v3("end", p.end()).v3s("vs", &p.vertices).fs("lengths", &p.segment_lengths).f("length", p.length)
        }));
    }
    let direct = curve.boxed();
    let doubly: Box<dyn Curve> = Box::new(curve.boxed());
    for u in us {
        let e = Ev::new("eval").f("u", u).out(guard(|| (direct.as_ref().get_point(u), doubly.get_point(u))), |e, (p, q)| {
            e.v3("out", p).v3("boxed", q)
        });
        c.ev(e);
    }
}
