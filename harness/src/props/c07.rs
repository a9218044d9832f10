//! C07: projection onto lines, circles, polylines and degree-1 splines.
use crate::gen::AnyCurve;
use crate::rec::*;
use crate::Case;
use geom3d::*;

pub fn run(c: &mut Case) {
    let r = &mut c.rng;
    let curve = match r.below(8) {
        0 => AnyCurve::line(r),
        1 | 2 => AnyCurve::circle(r),
        3 => AnyCurve::bezier(r, 1),
        4 | 5 => {
            // degree 1, continuous, on uneven knots
            let n = r.int(2, 7) as usize;
            let mut t = vec![r.coord()];
            for i in 0..n {
                let last = t[t.len() - 1];
                t.push(if i == 0 { last } else { last + r.int(1, 16) as f64 / 4.0 });
            }
            t.push(t[t.len() - 1]);
            AnyCurve::BSpline(1, t, r.d3s(n))
        }
        _ => {
            let most = if r.chance(1, 10) { 30 } else { 8 };
            AnyCurve::polyline(r, most)
        }
    };
    // in any unit of length
    let k = r.unit_of_measure();
    // now and then without extent
    let still = r.chance(1, 24);
    let scaled = |vs: Vec<Point3>| vs.iter().map(|v| if still { vs[0] * k } else { *v * k }).collect::<Vec<_>>();
    let curve = match curve {
        AnyCurve::Line(o, d) => AnyCurve::Line(o * k, d * r.pick(&[1.0, k])),
        AnyCurve::Circle(o, rad, z, x) => AnyCurve::Circle(o * k, rad * k, z, x),
        AnyCurve::Polyline(vs) => AnyCurve::Polyline(scaled(vs)),
        AnyCurve::Bezier(vs) => AnyCurve::Bezier(scaled(vs)),
        AnyCurve::BSpline(p, t, vs) => AnyCurve::BSpline(p, t, scaled(vs)),
        c => c,
    };
    let direct = curve.boxed();
    let mut qs: Vec<Point3> = Vec::new();
    let (a, b) = curve.domain();
    for _ in 0..4 {
        qs.push(r.p3() * k);
        qs.push(r.d3() * k);
        // on and near the curve
        let u = r.range(a, b);
        if let Ok(p) = guard(|| direct.get_point(u)) {
            qs.push(p);
            let off = r.d3();
            qs.push(p + off * k / 64.0);
        }
    }
    match &curve {
        AnyCurve::Polyline(vs) | AnyCurve::BSpline(_, _, vs) | AnyCurve::Bezier(vs) => {
            qs.push(vs[r.below(vs.len())]);
            let i = r.below(vs.len() - 1);
            // beyond the corners
            qs.push(vs[i] + (vs[i] - vs[i + 1]) * 0.5);
            qs.push(vs[i + 1] + (vs[i + 1] - vs[i]) * 0.5);
        }
        AnyCurve::Circle(o, rad, axis, x) => {
            let y = axis.cross(*x);
            qs.push(*o - *x * *rad);
            // as far from all of the circle
            qs.push(*o);
            qs.push(*o + *axis * k);
            qs.push(*o - *axis * (3.0 * k));
            qs.push(*o + y * *rad * 2.0 + *axis * k);
            qs.push(*o - y * *rad + *axis * k);
            // just beside the reference direction
            for e in [1e-9, -1e-9, -1e-12, -1e-6, 0.0] {
                qs.push(*o + *x * *rad + y * (*rad * e));
            }
        }
        _ => {}
    }
    c.ev(Ev::new("curve").raw("c", &curve.json()));
    for q in qs {
        let e = Ev::new("project").v3("q", q).out(guard(|| direct.project(q)), |e, u| e.f("u", u));
        c.ev(e);
    }
}
