//! C16: advancing-front meshing of planar regions.
use super::c14::random_simple;
use super::c15::face;
use crate::gen::Rng;
use crate::rec::*;
use crate::Case;
use geom3d::utils::generate_triangular_mesh;
use geom3d::*;

pub fn mesh(loops: &[Vec<Point2>]) -> Ev {
    let ps: Vec<Point2> = loops.iter().flatten().copied().collect();
    let mut ends = vec![0];
    for l in loops {
        ends.push(ends.last().unwrap() + l.len());
    }
    let sizes: Vec<i64> = loops.iter().map(|l| l.len() as i64).collect();
    let out = guard(|| generate_triangular_mesh(&ps, &ends));
    Ev::new("mesh").v2s("ps", &ps).raw("sizes", &is(&sizes)).out(out, |e, (vs, ts)| e.v2s("vs", &vs).raw("ts", &tris(&ts)))
}

/// cut edges longer than about h
pub fn refine(r: &mut Rng, l: &[Point2], h: f64) -> Vec<Point2> {
    let n = l.len();
    let mut out = vec![];
    for i in 0..n {
        let (a, b) = (l[i], l[(i + 1) % n]);
        let k = ((b - a).length() / h).ceil().max(1.0) as usize;
        for j in 0..k {
            let t = (j as f64 + if j > 0 { r.range(-0.2, 0.2) } else { 0.0 }) / k as f64;
            out.push(a + (b - a) * t);
        }
    }
    out
}

/// loops from a scenario: a polygon (n x y ...) or several (k, then each n x y ...)
pub fn scenario(s: &[i64], k: f64) -> Vec<Vec<Point2>> {
    let at = |i: usize, n: usize| (0..n).map(|j| Point2::new(s[i + 2 * j] as f64, s[i + 2 * j + 1] as f64) * k).collect();
    if s.len() == 1 + 2 * s[0] as usize {
        return vec![at(1, s[0] as usize)];
    }
    let (mut i, mut out) = (1, vec![]);
    while i < s.len() {
        let n = s[i] as usize;
        out.push(at(i + 1, n));
        i += 1 + 2 * n;
    }
    out
}

/// a disk with round holes
fn disk(r: &mut Rng) -> Vec<Vec<Point2>> {
    let circle = |c: Point2, rad: f64, n: usize, start: f64, s: f64| -> Vec<Point2> {
        (0..n)
            .map(|i| {
                let t = start + s * std::f64::consts::TAU * i as f64 / n as f64;
                c + Point2::new(t.cos(), t.sin()) * rad
            })
            .collect()
    };
    let n = r.pick(&[6, 12, 17, 24, 32, 48]);
    let start = r.pick(&[0.0, 0.0, 0.7, 2.0]);
    let mut out = vec![circle(Point2::ZERO, 8.0, n, start, 1.0)];
    let holes = r.below(5);
    if holes == 1 {
        // a ring, concentric or not
        let m = r.pick(&[5, n, 2 * n]);
        out.push(circle(Point2::new(r.pick(&[0.0, 0.5]), 0.0), r.pick(&[1.0, 3.0, 6.0]), m, start, -1.0));
    } else {
        for i in 0..holes {
            let (s, co) = (i as f64 * std::f64::consts::TAU / holes as f64).sin_cos();
            let m = r.int(4, 16) as usize;
            let (rad, t) = (r.range(0.3, 1.6), r.range(0.0, 6.0));
            out.push(circle(Point2::new(co, s) * 4.0, rad, m, t, -1.0));
        }
    }
    out
}

pub fn run(c: &mut Case) {
    let scn = c.scn.clone();
    let r = &mut c.rng;
    let replayed = scn.is_some();
    let mut loops = if let Some(s) = scn {
        let k = r.pick(&[1.0, 1.0, 0.125, 8.0, 0.001, 0.0001, 1e6]);
        scenario(&s, k)
    } else if r.chance(1, 4) {
        disk(r)
    } else if r.chance(1, 2) {
        vec![random_simple(r)]
    } else {
        face(r)
    };
    if !replayed && r.chance(1, 6) {
        let k = r.pick(&[1e-4, 0.01, 100.0, 1e5]);
        loops.iter_mut().flatten().for_each(|p| *p = *p * k);
    }
    let size = loops[0].iter().map(|p| p.abs().max_element()).fold(0.0, f64::max);
    match r.below(4) {
        0 => {
            let h = size / r.pick(&[4.0, 8.0, 12.0]);
            loops = loops.iter().map(|l| refine(r, l, h)).collect();
        }
        1 => {
            // only some edges are cut finely
            let h = size / r.pick(&[8.0, 16.0]);
            let i = r.below(loops.len());
            loops[i] = refine(r, &loops[i], h);
        }
        _ => {}
    }
    for l in loops.iter_mut() {
        let k = r.below(l.len());
        l.rotate_left(k);
    }
    match r.below(4) {
        0 => {
            // turned and moved: nothing is aligned any more
            let (s, co) = r.range(0.0, 6.28).sin_cos();
            let o = Point2::new(r.coord(), r.coord());
            loops.iter_mut().flatten().for_each(|p| *p = o + Point2::new(co * p.x - s * p.y, s * p.x + co * p.y));
        }
        1 => r.shuffle(&mut loops),
        _ => {}
    }
    let e = mesh(&loops);
    c.ev(e);
}
