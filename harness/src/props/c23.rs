//! C23: topology of STEP files.
use super::step::*;
use crate::gen::Rng;
use crate::rec::*;
use crate::Case;
use geom3d::curve::*;
use geom3d::*;
use std::f64::consts::*;

/// one step along a boundary: kind of curve (0 line, 1 arc, 2 B-spline, 3 polyline), curve
/// along or against the step, edge stored along or against it
type Step = (i64, bool, bool);

/// An edge as it is stored, with the parameters of its start and end.
struct Edge {
    id: usize,
    rev: bool,
    curve: StepCurve,
    a: f64,
    b: f64,
}

impl Edge {
    fn json(&self) -> String {
        format!("{{\"c\":{},\"a\":{},\"b\":{}}}", self.curve.json(), f64s(self.a), f64s(self.b))
    }
}

#[derive(Clone, Copy)]
struct Frame {
    o: Point3,
    x: Vec3,
    y: Vec3,
}
impl Frame {
    fn at(&self, p: (f64, f64)) -> Point3 {
        self.o + self.x * p.0 + self.y * p.1
    }
    fn polar(&self, c: (f64, f64), r: f64, t: f64) -> Point3 {
        self.at((c.0 + r * t.cos(), c.1 + r * t.sin()))
    }
}

/// the curve of the step from angle t0 to t1 > t0 around c, and its parameters there
fn curve_of(r: &mut Rng, f: Frame, c: (f64, f64), radius: f64, (t0, t1): (f64, f64), k: i64, along: bool, part: bool) -> (StepCurve, f64, f64) {
    let closed = t1 - t0 > 6.2;
    let p = f.polar(c, radius, t0);
    let q = if closed { p } else { f.polar(c, radius, t1) };
    // points between, going round the centre
    let mut between = |r: &mut Rng, n: usize, low: f64| -> Vec<Point3> {
        (1..=n)
            .map(|i| {
                let s = (i as f64 + r.range(-0.3, 0.3)) / (n + 1) as f64;
                let t = t0 + (t1 - t0) * s;
                // the chord's distance from the centre, if there is one
                let h = if closed { 1.0 } else { ((t1 - t0) / 2.0).cos() / (t - (t0 + t1) / 2.0).cos() };
                let h = if h > 0.3 && t1 - t0 < 2.5 { h } else { 0.9 };
                f.polar(c, radius * (h * r.range(low, 1.15)).min(1.0), t)
            })
            .collect()
    };
    match k {
        0 => {
            let (s, e) = if along { (p, q) } else { (q, p) };
            let d = e - s;
            let m = r.pick(&[1.0, 1.0, 0.5, 7.0]);
            let dir = d * r.pick(&[1.0, 0.01, 300.0]);
            let u0 = r.pick(&[0.0, 0.0, -2.5, 4.0]);
            let o = s - d.normalize() * (m * u0);
            let u1 = u0 + d.length() / m;
            let l = StepCurve::Line(o, dir, m);
            if along { (l, u0, u1) } else { (l, u1, u0) }
        }
        1 => {
            let phi = match r.below(4) {
                0 => t0,
                1 if along => t0 - r.range(0.0, 0.2),
                1 => t1 + r.range(0.0, 0.2),
                _ => r.range(0.0, TAU),
            };
            let n = f.x.cross(f.y);
            let pl = Placement { o: f.at(c), axis: Some(if along { n } else { -n }), x: Some(f.x * phi.cos() + f.y * phi.sin()) };
            let circle = StepCurve::Circle(pl, radius);
            if along { (circle, t0 - phi, t1 - phi) } else { (circle, phi - t0, phi - t1) }
        }
        2 => {
            let d = if closed { 3 } else { r.int(2, 3) as usize };
            let n = if closed { 7 } else { d - 1 + r.below(2) };
            let mut ps = vec![p];
            ps.extend(between(r, n, 0.9));
            ps.push(q);
            if !along {
                ps.reverse();
            }
            let base = r.pick(&[0.0, 0.0, -3.0, 10.0]);
            let step = r.pick(&[1.0, 1.0, 0.25]);
            let inner = ps.len() - d - 1;
            let (mut ms, mut ks) = (vec![d + 1], vec![base]);
            for i in 1..=inner {
                ms.push(1);
                ks.push(base + step * i as f64);
            }
            let (mut a, mut b) = (base, base + step * (inner + 1) as f64);
            ms.push(d + 1);
            ks.push(b);
            if part && !closed && inner == 0 {
                // the curve goes on smoothly on both sides
                let before = ps[0] * 2.0 - ps[1];
                let after = ps[d] * 2.0 - ps[d - 1];
                let far = |r: &mut Rng, s: Point3, m: Point3| m + (m - s) * r.range(0.5, 1.0) + f.x.cross(f.y) * r.range(-0.5, 0.5);
                let mut all = vec![];
                let mut head = vec![before];
                let mut tail = vec![after];
                while head.len() < d {
                    let l = head.len() - 1;
                    let (h, t) = if l == 0 { (ps[0], ps[d]) } else { (head[l - 1], tail[l - 1]) };
                    let (x, y) = (far(r, h, head[l]), far(r, t, tail[l]));
                    head.push(x);
                    tail.push(y);
                }
                head.reverse();
                all.extend(head);
                all.extend(ps.iter());
                all.extend(tail);
                ps = all;
                ms = vec![d + 1, d, d, d + 1];
                a = base + step;
                b = base + step * 2.0;
                ks = vec![base, a, b, b + step];
            }
            let s = StepCurve::BSpline(d, ms, ks, ps);
            if along { (s, a, b) } else { (s, b, a) }
        }
        _ => {
            let n = if closed { r.int(3, 6) } else { r.int(1, 3) } as usize;
            let mut ps = vec![p];
            ps.extend(between(r, n, 0.8));
            ps.push(q);
            if !along {
                ps.reverse();
            }
            let (mut a, mut b) = (0.0, (ps.len() - 1) as f64);
            if part && !closed {
                // more vertices before and after
                for _ in 0..r.below(3) {
                    let v = ps[0] + f.at((1.0 + r.unit() * 4.0, r.range(-4.0, 4.0))) - f.o + f.x.cross(f.y);
                    ps.insert(0, v);
                    a += 1.0;
                    b += 1.0;
                }
                for _ in 0..r.below(3) {
                    let v = ps[ps.len() - 1] - f.x.cross(f.y) * 2.0 + f.x * r.range(-1.0, 1.0);
                    ps.push(v);
                }
            }
            let s = StepCurve::Polyline(ps);
            if along { (s, a, b) } else { (s, b, a) }
        }
    }
}

/// the edges around c, counter-clockwise
fn ring(r: &mut Rng, file: &mut File, f: Frame, c: (f64, f64), radius: f64, steps: &[Step], part: bool) -> Vec<Edge> {
    let n = steps.len();
    let start = if r.chance(1, 4) { 0.0 } else { r.range(0.0, TAU) };
    let gap = TAU / n as f64;
    let mut ts: Vec<f64> = (0..n).map(|i| start + gap * (i as f64 + if i > 0 { r.range(-0.12, 0.12) } else { 0.0 })).collect();
    if n == 2 && steps[0].0 == 1 && r.chance(2, 3) {
        // nearly all the way round in one edge
        ts[1] = start + r.range(5.8, 6.19);
    }
    ts.push(start + TAU);
    let ps: Vec<Point3> = (0..n).map(|i| f.polar(c, radius, ts[i])).collect();
    let vs: Vec<usize> = ps
        .iter()
        .map(|p| {
            let p = file.point(r, *p);
            file.new_entity(format!("VERTEX_POINT('',@{}@)", p))
        })
        .collect();
    // all arcs of one direction may lie on the same circle
    let share = r.chance(1, 2);
    let mut circles: [Option<(StepCurve, f64, usize)>; 2] = [None, None];
    (0..n)
        .map(|i| {
            let (k, along, rev) = steps[i];
            let (mut curve, mut up, mut uq) = curve_of(r, f, c, radius, (ts[i], ts[i + 1]), k, along, part);
            let mut shared = None;
            if share && k == 1 {
                if let Some((circle, phi, id)) = &circles[along as usize] {
                    curve = circle.clone();
                    shared = Some(*id);
                    (up, uq) = if along { (ts[i] - phi, ts[i + 1] - phi) } else { (phi - ts[i], phi - ts[i + 1]) };
                }
            }
            let (a, b, s, e) = if rev { (uq, up, vs[(i + 1) % n], vs[i]) } else { (up, uq, vs[i], vs[(i + 1) % n]) };
            let g = shared.unwrap_or_else(|| file.curve(r, &curve));
            if k == 1 {
                let phi = if along { ts[i] - up } else { ts[i] + up };
                circles[along as usize] = Some((curve.clone(), phi, g));
            }
            let id = file.new_entity(format!("EDGE_CURVE('',@{}@,@{}@,@{}@,{})", s, e, g, tf(a < b)));
            Edge { id, rev, curve, a, b }
        })
        .collect()
}

/// A bound of a face around the edges, counter-clockwise or clockwise; its id and description.
fn bound(r: &mut Rng, file: &mut File, edges: &[Edge], ccw: bool, flag: bool, outer: bool) -> (usize, String) {
    let n = edges.len();
    // the walk, then the list in the file
    let mut walk: Vec<(usize, bool)> = (0..n).map(|i| (i, true)).collect();
    if !ccw {
        walk = walk.into_iter().rev().map(|(i, w)| (i, !w)).collect();
    }
    let k = r.below(n);
    walk.rotate_left(k);
    if !flag {
        walk = walk.into_iter().rev().map(|(i, w)| (i, !w)).collect();
    }
    let mut ids = vec![];
    let mut desc = vec![];
    for (i, w) in walk {
        let e = &edges[i];
        let o = w != e.rev;
        ids.push(file.new_entity(format!("ORIENTED_EDGE('',*,*,@{}@,{})", e.id, tf(o))));
        desc.push(format!("{{\"e\":{},\"o\":{}}}", e.json(), o));
    }
    let l = file.new_entity(format!("EDGE_LOOP('',({}))", refs(&ids)));
    let name = if outer { "FACE_OUTER_BOUND" } else { "FACE_BOUND" };
    (file.new_entity(format!("{}('',@{}@,{})", name, l, tf(flag))), format!("{{\"flag\":{},\"edges\":[{}]}}", flag, desc.join(",")))
}

fn random_steps(r: &mut Rng, n: usize) -> Vec<Step> {
    loop {
        let s: Vec<Step> = (0..n).map(|_| (r.int(0, 3), r.chance(1, 2), r.chance(1, 2))).collect();
        if !(n == 1 && s[0].0 == 0) && !(n == 2 && s.iter().all(|x| x.0 == 0)) {
            return s;
        }
    }
}

fn face(r: &mut Rng, file: &mut File, f: Frame, bounds: &[usize], sense: bool, plane: &mut Option<(usize, Vec3)>) -> usize {
    let n = f.x.cross(f.y);
    if let Some((s, axis)) = plane {
        // faces on the same plane, on either side of it
        if r.chance(1, 2) {
            return file.new_entity(format!("ADVANCED_FACE('',({}),@{}@,{})", refs(bounds), s, tf(axis.dot(n) > 0.0)));
        }
    }
    let pl = Placement { o: f.at((r.range(-3.0, 3.0), r.range(-3.0, 3.0))), axis: Some(if sense { n } else { -n }), x: Some(f.x) };
    let s = file.surface(r, &StepSurface::Plane(pl));
    *plane = Some((s, if sense { n } else { -n }));
    file.new_entity(format!("ADVANCED_FACE('',({}),@{}@,{})", refs(bounds), s, tf(sense)))
}

fn five(s: &CurveSegment<Box<dyn Curve>>) -> String {
    let (a, b) = s.parameter_range;
    list(&[0.0, 0.25, 0.5, 0.75, 1.0], |k| v3(s.curve.get_point(a + (b - a) * k)))
}

fn trim(r: &mut Rng, file: &mut File, curve: &StepCurve, u: f64, p: Point3, how: usize) -> String {
    let u = if let StepCurve::Circle(..) = curve { if u > TAU { u - TAU } else { u } } else { u };
    let v = format!("PARAMETER_VALUE({})", real(r, u));
    let p = format!("@{}@", file.point(r, p));
    match how {
        0 => format!("({})", v),
        1 => format!("({})", p),
        2 => format!("({},{})", p, v),
        _ => format!("({},{})", v, p),
    }
}

/// a composite curve of up to three segments
fn composite(r: &mut Rng, file: &mut File) -> (usize, String) {
    let mut ids = vec![];
    let mut desc = vec![];
    let mut last = None;
    for _ in 0..if r.chance(1, 12) { r.int(4, 9) } else { r.int(1, 3) } {
        if r.chance(1, 8) {
            // left out, and nothing else is
            let g = file.curve(r, &StepCurve::Unsupported);
            let t = file.new_entity(format!("TRIMMED_CURVE('',@{}@,(PARAMETER_VALUE(0.)),(PARAMETER_VALUE(1.)),.T.,.PARAMETER.)", g));
            ids.push(file.new_entity(format!("COMPOSITE_CURVE_SEGMENT(.DISCONTINUOUS.,.T.,@{}@)", t)));
        }
        // several segments may be parts of one curve
        let same = last.take().filter(|_: &(StepCurve, usize)| r.chance(1, 3));
        let entity = same.as_ref().map(|s| s.1);
        let c = loop {
            let c = match &same {
                Some((c, _)) => break c.clone(),
                None => StepCurve::random(r),
            };
            // the parameters are looked for on the curve
            match &c {
                StepCurve::BSpline(p, ms, ks, _) if *p == 1 || ms.iter().skip(1).rev().skip(1).any(|m| m + 1 > *p) || ks[ks.len() - 1] - ks[0] < 0.1 || ks[ks.len() - 1] - ks[0] > 100.0 => {}
                StepCurve::Line(_, _, m) if *m < 0.1 => {}
                StepCurve::Polyline(ps) if ps.windows(2).any(|w| w[0].distance(w[1]) < 0.1) => {}
                _ => break c,
            }
        };
        let (lo, mut hi) = c.domain();
        if let StepCurve::Polyline(ps) = &c {
            hi = (ps.len() - 1) as f64;
        }
        let cut = |r: &mut Rng| if r.chance(1, 2) { r.range(lo, hi) } else { lo + (hi - lo) * r.int(0, 8) as f64 / 8.0 };
        let (mut a, mut b) = (cut(r), cut(r));
        while (a - b).abs() < (hi - lo) / 20.0 {
            b = cut(r);
        }
        if r.chance(1, 3) {
            (a, b) = if r.chance(1, 2) { (lo, hi) } else { (hi, lo) };
        }
        let (mut how1, mut how2) = (r.below(4), r.below(4));
        let mut loose = false;
        let at: Box<dyn Fn(f64) -> Point3> = match &c {
            StepCurve::Circle(..) => {
                if r.chance(1, 5) {
                    (a, b) = (r.range(0.0, 0.2), TAU - r.range(0.0, 0.1));
                    if r.chance(1, 2) {
                        std::mem::swap(&mut a, &mut b);
                    }
                }
                // over the top, in either sense
                if (a - b).abs() < 6.0 && r.chance(1, 3) {
                    if a > b { b += TAU } else { a += TAU }
                }
                let (o, _, x, y, radius) = circle_frame(&c);
                let full = (a - b).abs() > TAU - 1e-9;
                if full && (how1 == 1) != (how2 == 1) {
                    // rounding would decide between a full turn and nothing
                    how1 = 2;
                    how2 = 3;
                }
                Box::new(move |u| if full { o + x * radius } else { o + (x * u.cos() + y * u.sin()) * radius })
            }
            StepCurve::Line(o, d, m) => {
                let (o, d) = (*o, d.normalize() * *m);
                Box::new(move |u| o + d * u)
            }
            StepCurve::Polyline(ps) => {
                // going back over itself a point has several parameters
                how1 = if how1 == 1 { 2 } else { how1 };
                how2 = if how2 == 1 { 3 } else { how2 };
                let ps = ps.clone();
                Box::new(move |u| {
                    let i = (u as usize).min(ps.len() - 2);
                    ps[i].lerp(ps[i + 1], u - i as f64)
                })
            }
            StepCurve::BSpline(p, ms, ks, ps) => {
                if how1 == 1 || how2 == 1 {
                    // only the ends of the curve are found for certain
                    let clamped = ms[0] == p + 1 && ms[ms.len() - 1] == p + 1;
                    let closed = ps[0].distance(ps[ps.len() - 1]) < 0.5;
                    if clamped && !closed {
                        (a, b) = if r.chance(1, 2) { (lo, hi) } else { (hi, lo) };
                        loose = true;
                    } else {
                        how1 = how1 & 2;
                        how2 = how2 & 2;
                    }
                }
                let k = BSplineCurve { control_points: ps.clone(), knots: KnotVector::new(expand(ms, ks)), degree: *p as u8 };
                Box::new(move |u| k.get_point(u))
            }
            StepCurve::Unsupported => unreachable!(),
        };
        let t1 = trim(r, file, &c, a, at(a), how1);
        let t2 = trim(r, file, &c, b, at(b), how2);
        let g = entity.unwrap_or_else(|| file.curve(r, &c));
        last = Some((c.clone(), g));
        let t = file.new_entity(format!("TRIMMED_CURVE('',@{}@,{},{},{},.UNSPECIFIED.)", g, t1, t2, tf(a < b)));
        let same = r.chance(1, 2);
        ids.push(file.new_entity(format!("COMPOSITE_CURVE_SEGMENT(.DISCONTINUOUS.,{},@{}@)", tf(same), t)));
        desc.push(format!("{{\"o\":{},\"loose\":{},\"e\":{{\"c\":{},\"a\":{},\"b\":{}}}}}", same, loose, c.json(), f64s(a), f64s(b)));
    }
    (file.new_entity(format!("COMPOSITE_CURVE('',({}),.U.)", refs(&ids))), format!("[{}]", desc.join(",")))
}

fn circle_frame(c: &StepCurve) -> (Point3, Vec3, Vec3, Vec3, f64) {
    if let StepCurve::Circle(pl, radius) = c {
        let z = pl.axis.unwrap_or(Vec3::Z).normalize();
        let d = pl.x.unwrap_or(if z.y == 0.0 && z.z == 0.0 { Vec3::Y } else { Vec3::X });
        let x = (d - z * d.dot(z)).normalize();
        return (pl.o, z, x, z.cross(x), *radius);
    }
    unreachable!()
}

pub fn run(c: &mut Case) {
    let scn = c.scn.clone();
    let r = &mut c.rng;
    let mut file = File::new();
    let (x, y, _) = r.frame();
    let f = Frame { o: r.d3(), x, y };
    let mut faces = vec![];
    let mut ordered = vec![];
    let radius = r.int(8, 24) as f64 / 2.0;
    let bit = |b: i64| b == 1;
    // (edges around, bound flags, sense, holes)
    let (outer, flag, sense, holes): (Vec<Step>, bool, bool, Vec<Vec<Step>>) = if let Some(s) = &scn {
        let steps: Vec<Step> = s[4..].chunks(3).map(|k| (k[0], bit(k[1]), bit(k[2]))).collect();
        if bit(s[3]) {
            // the steps are around a hole
            let n = r.int(4, 6) as usize;
            (random_steps(r, n), r.chance(1, 2), bit(s[2]), vec![steps])
        } else {
            (steps, bit(s[1]), bit(s[2]), vec![])
        }
    } else {
        let n = r.pick(&[1, 2, 2, 3, 4, 5, 6, 7]) as usize;
        let h = if n >= 4 { r.below(4) } else { 0 };
        let holes = (0..h)
            .map(|_| {
                let n = r.int(1, 4) as usize;
                random_steps(r, n)
            })
            .collect();
        (random_steps(r, n), r.chance(1, 2), r.chance(1, 2), holes)
    };
    let part = r.chance(1, 4);
    if scn.is_none() && r.chance(1, 12) {
        // nothing but composite curves
    } else {
        let edges = ring(r, &mut file, f, (0.0, 0.0), radius, &outer, part);
        let as_outer = r.chance(2, 3);
        let mut bounds = vec![bound(r, &mut file, &edges, true, flag, as_outer)];
        let turn = r.range(0.0, TAU);
        let mut fills = vec![];
        for (i, steps) in holes.iter().enumerate() {
            let (d, rad) = if holes.len() == 1 { (r.range(0.0, 0.12), r.range(0.12, 0.2)) } else { (0.24, r.range(0.1, 0.14)) };
            let t = turn + TAU / 3.0 * i as f64;
            let centre = (radius * d * t.cos(), radius * d * t.sin());
            let es = ring(r, &mut file, f, centre, radius * rad, steps, false);
            let flag = match &scn {
                Some(s) => bit(s[1]),
                None => r.chance(1, 2),
            };
            bounds.push(bound(r, &mut file, &es, false, flag, false));
            if r.chance(1, 2) {
                fills.push(es);
            }
        }
        // the file lists bounds in any order
        r.shuffle(&mut bounds);
        let mut plane = None;
        let put = |r: &mut Rng, file: &mut File, f: Frame, bounds: Vec<(usize, String)>, sense: bool, mesh: bool, ordered: &mut Vec<usize>, faces: &mut Vec<(String, bool)>, plane: &mut Option<(usize, Vec3)>| {
            let ids: Vec<usize> = bounds.iter().map(|b| b.0).collect();
            ordered.push(face(r, file, f, &ids, sense, plane));
            let ds: Vec<String> = bounds.into_iter().map(|b| b.1).collect();
            faces.push((format!("{{\"o\":{},\"n\":{},\"bounds\":[{}]}}", v3(f.o), v3(f.x.cross(f.y)), ds.join(",")), mesh));
        };
        put(r, &mut file, f, bounds, sense, !part, &mut ordered, &mut faces, &mut plane);
        for es in fills {
            // a face in the hole: the same edges, the other way round
            let (flag, sense) = (r.chance(1, 2), r.chance(1, 2));
            if r.chance(1, 3) {
                // seen from the other side
                let g = Frame { o: f.o, x: f.y, y: f.x };
                let b = bound(r, &mut file, &es, false, flag, true);
                put(r, &mut file, g, vec![b], sense, true, &mut ordered, &mut faces, &mut plane);
            } else {
                let b = bound(r, &mut file, &es, true, flag, true);
                put(r, &mut file, f, vec![b], sense, true, &mut ordered, &mut faces, &mut plane);
            }
        }
    }
    let mut curves = vec![];
    if scn.is_none() || r.chance(1, 4) {
        for _ in 0..r.int(0, 3) {
            let (id, d) = composite(r, &mut file);
            ordered.push(id);
            curves.push(d);
        }
    }
    let text = file.text(r, &ordered);
    let mut out = vec![Ev::new("file").raw("faces", &list(&faces, |s| s.0.clone())).raw("curves", &list(&curves, |s| s.clone()))];
    match read(&text, r) {
        Err(m) => out.push(Ev::new("read").s("panic", &m)),
        Ok(Err(m)) => out.push(Ev::new("read").s("panic", &m.to_string())),
        Ok(Ok(m)) => {
            out.push(
                Ev::new("read")
                    .raw("faces", &list(&m.faces, |k| k.bounds.len().to_string()))
                    .raw("curves", &list(&m.curves, |k| k.segments.len().to_string())),
            );
            for (i, k) in m.faces.iter().enumerate().take(faces.len()) {
                let bs = guard(|| list(&k.bounds, |b| list(&b.edges, five)));
                out.push(Ev::new("bounds").n("i", i as i64 + 1).out(bs, |e, v| e.raw("out", &v)));
                if faces[i].1 {
                    let mesh = guard(|| k.get_triangle_mesh());
                    out.push(Ev::new("mesh").n("i", i as i64 + 1).out(mesh, |e, v| e.v3s("vs", &v.vertices).raw("ts", &tris(&v.triangles))));
                }
            }
            for (i, k) in m.curves.iter().enumerate().take(curves.len()) {
                let ss = guard(|| list(&k.segments, five));
                out.push(Ev::new("curve").n("i", i as i64 + 1).out(ss, |e, v| e.raw("out", &v)));
            }
        }
    }
    for e in out {
        c.ev(e);
    }
}
