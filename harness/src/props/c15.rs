//! C15: planar faces with holes.
use super::c14::{bulged, outline, random_simple, round as circle, scaled, simple, trim, unit, PlaneFrame, Side};
use crate::gen::Rng;
use crate::rec::Ev;
use crate::Case;
use geom3d::*;

fn inside(ps: &[Point2], q: Point2) -> bool {
    let n = ps.len();
    let mut w = false;
    for i in 0..n {
        let (a, b) = (ps[i], ps[(i + 1) % n]);
        if (a.y > q.y) != (b.y > q.y) && q.x < a.x + (q.y - a.y) * (b.x - a.x) / (b.y - a.y) {
            w = !w;
        }
    }
    w
}
pub fn apart(a: &[Point2], b: &[Point2], gap: f64) -> bool {
    use geom3d::utils::Point;
    let d = |p: &Point2, ps: &[Point2]| (0..ps.len()).map(|i| p.distance_to_line_segment(ps[i], ps[(i + 1) % ps.len()])).fold(1e9, f64::min);
    a.iter().all(|p| d(p, b) > gap) && b.iter().all(|p| d(p, a) > gap) && {
        // no crossings
        let x = |o: Point2, p: Point2, q: Point2| (p - o).perp_dot(q - o);
        (0..a.len()).all(|i| {
            (0..b.len()).all(|j| {
                let (p, q, r, s) = (a[i], a[(i + 1) % a.len()], b[j], b[(j + 1) % b.len()]);
                !(x(p, q, r) * x(p, q, s) < 0.0 && x(r, s, p) * x(r, s, q) < 0.0)
            })
        })
    }
}
fn round(p: Point2) -> Point2 {
    Point2::new((p.x * 64.0).round() / 64.0, (p.y * 64.0).round() / 64.0)
}

/// an outer polygon and disjoint clockwise holes inside it
pub fn face(r: &mut Rng) -> Vec<Vec<Point2>> {
    loop {
        let mut outer: Vec<Point2> = random_simple(r);
        let k = r.pick(&[2.0, 4.0]);
        outer.iter_mut().for_each(|p| *p = *p * k);
        let (lo, hi) = outer.iter().fold((outer[0], outer[0]), |(a, b), p| (a.min(*p), b.max(*p)));
        let mut loops = vec![outer];
        let many = r.chance(1, 6);
        let want = if many { r.int(5, 10) } else { r.int(1, 4) } as usize;
        for _ in 0..if many { 300 } else { 60 } {
            if loops.len() > want {
                break;
            }
            let c = Point2::new(r.range(lo.x, hi.x), r.range(lo.y, hi.y));
            let n = if r.chance(1, 8) { r.int(7, 20) } else { r.int(3, 6) } as usize;
            let size = r.pick(&[0.5, 1.0, 2.0]);
            let mut h: Vec<Point2> = (0..n)
                .map(|i| {
                    let a = (i as f64 + r.range(-0.3, 0.3)) / n as f64 * std::f64::consts::TAU;
                    round(c + Point2::new(a.cos(), a.sin()) * size * r.range(0.4, 1.0))
                })
                .collect();
            h.reverse();
            // straight vertices
            if r.chance(1, 4) {
                for _ in 0..r.int(1, 3) {
                    let i = r.below(h.len());
                    let m = (h[i] + h[(i + 1) % h.len()]) / 2.0;
                    h.insert(i + 1, m);
                }
            }
            let n = h.len();
            // aligned right ends are a special case of the bridge search
            if loops.len() > 1 && r.chance(1, 2) {
                let right = |ps: &[Point2]| ps.iter().map(|p| p.x).fold(-1e9, f64::max);
                let shift = right(&loops[1]) - right(&h);
                h.iter_mut().for_each(|p| p.x += shift);
            }
            let area: f64 = (0..n).map(|i| h[i].perp_dot(h[(i + 1) % n])).sum();
            if area > -0.05 || !simple(&h) || !h.iter().all(|p| inside(&loops[0], *p)) {
                continue;
            }
            if loops[1..].iter().any(|l| inside(l, h[0]) || inside(&h, l[0])) {
                continue;
            }
            if loops.iter().all(|l| apart(l, &h, 0.06)) {
                let t = r.below(n);
                h.rotate_left(t);
                loops.push(h);
            }
        }
        if loops.len() > 1 {
            return loops;
        }
    }
}

/// a face whose holes are round, or have round sides
pub fn round_face(r: &mut Rng) -> Vec<Vec<Side>> {
    loop {
        let outer = random_simple(r);
        if outer.len() > 12 {
            continue;
        }
        let (lo, hi) = outer.iter().fold((outer[0], outer[0]), |(a, b), p| (a.min(*p), b.max(*p)));
        let outer = bulged(r, &outer);
        let dense = |l: &[Side]| -> Vec<Point2> {
            (0..l.len())
                .flat_map(|i| {
                    let (s, b) = (l[i], l[(i + 1) % l.len()].a);
                    (0..32).map(move |k| {
                        let t = k as f64 / 32.0;
                        match s.arc {
                            Some((c, rad, t0, t1)) => c + Point2::new((t0 + (t1 - t0) * t).cos(), (t0 + (t1 - t0) * t).sin()) * rad,
                            None => s.a + (b - s.a) * t,
                        }
                    })
                })
                .collect()
        };
        let mut loops = vec![outer];
        let mut all = vec![dense(&loops[0])];
        let want = r.int(1, 4) as usize;
        for _ in 0..60 {
            if loops.len() > want {
                break;
            }
            let c = Point2::new(r.range(lo.x, hi.x), r.range(lo.y, hi.y));
            let size = r.range(0.3, 2.0);
            let h = if r.chance(1, 2) {
                circle(r, c, size, false)
            } else {
                // a slot: two straight sides, two half circles
                let (s, co) = r.range(0.0, 6.3).sin_cos();
                let (u, v) = (Point2::new(co, s) * size, Point2::new(-s, co) * size * r.range(0.2, 0.8));
                let w = v.length();
                let t = v.y.atan2(v.x);
                let turn = -std::f64::consts::PI;
                let mut l = vec![
                    Side { a: c - u + v, arc: None },
                    Side { a: c + u + v, arc: Some((c + u, w, t, t + turn)) },
                    Side { a: c + u - v, arc: None },
                    Side { a: c - u - v, arc: Some((c - u, w, t + turn, t + 2.0 * turn)) },
                ];
                let k = r.below(4);
                l.rotate_left(k);
                l
            };
            let d = dense(&h);
            if !d.iter().all(|p| inside(&all[0], *p)) || all[1..].iter().any(|l| inside(l, d[0]) || inside(&d, l[0])) {
                continue;
            }
            let close = |a: &[Point2], b: &[Point2]| a.iter().any(|p| b.iter().any(|q| p.distance(*q) < 0.6));
            if !all.iter().any(|l| close(l, &d)) {
                loops.push(h);
                all.push(d);
            }
        }
        if loops.len() > 1 {
            return loops;
        }
    }
}

pub fn run(c: &mut Case) {
    let scn = c.scn.clone();
    let r = &mut c.rng;
    let f = PlaneFrame::any(r);
    let mut out: Vec<Ev> = vec![f.ev()];
    if let Some(s) = scn {
        let k = r.pick(&[1.0, 0.25, 4.0]);
        let mut loops = Vec::new();
        let mut i = 1;
        while i < s.len() {
            let n = s[i] as usize;
            let mut l: Vec<Point2> = (0..n).map(|j| Point2::new(s[i + 1 + 2 * j] as f64, s[i + 2 + 2 * j] as f64) * k).collect();
            let t = r.below(n);
            l.rotate_left(t);
            loops.push(l);
            i += 1 + 2 * n;
        }
        // the same face seen after quarter turns of the plane
        for _ in 0..r.below(4) {
            loops.iter_mut().flatten().for_each(|p| *p = Point2::new(-p.y, p.x));
        }
        out.push(trim(r, &f, &loops));
    } else if r.chance(1, 4) {
        let mut loops = round_face(r);
        let k = unit(r);
        let size = loops[0].iter().map(|s| s.a.abs().max_element()).fold(0.0, f64::max);
        loops.iter_mut().for_each(|l| scaled(l, k));
        for _ in 0..2 {
            r.shuffle(&mut loops);
            out.push(outline(r, &f, &loops, size * k));
        }
    } else {
        let mut loops = face(r);
        let k = unit(r);
        loops.iter_mut().flatten().for_each(|p| *p = *p * k);
        for _ in 0..2 {
            r.shuffle(&mut loops);
            out.push(trim(r, &f, &loops));
        }
    }
    for e in out {
        c.ev(e);
    }
}
