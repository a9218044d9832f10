//! C13: planar predicates and nearest-point helpers.
use crate::gen::Rng;
use crate::rec::*;
use crate::Case;
use geom3d::utils::Point;
use geom3d::*;
use std::collections::VecDeque;

fn p2(r: &mut Rng) -> Point2 {
    Point2::new(r.coord(), r.coord())
}
fn l2(r: &mut Rng) -> Point2 {
    Point2::new(r.int(-16, 16) as f64 / 4.0, r.int(-16, 16) as f64 / 4.0)
}

fn inside(c: &mut Case, a: Point2, b: Point2, d: Point2, p: Point2) {
    if (b - a).perp_dot(d - a) <= 0.0 {
        return;
    }
    let e = Ev::new("inside").v2("a", a).v2("b", b).v2("c", d).v2("p", p);
    c.ev(e.out(guard(|| p.is_inside_triangle(a, b, d)), |e, o| e.b("out", o)));
}

fn dist2(c: &mut Case, a: Point2, b: Point2, p: Point2) {
    let e = Ev::new("dist").v2("a", a).v2("b", b).v2("p", p);
    c.ev(e.out(guard(|| p.distance_to_line_segment(a, b)), |e, o| e.f("out", o)));
}
fn dist3(c: &mut Case, a: Point3, b: Point3, p: Point3) {
    let e = Ev::new("dist").v3("a", a).v3("b", b).v3("p", p);
    c.ev(e.out(guard(|| utils::distance_to_line_segment(a, b, p)), |e, o| e.f("out", o)));
}

/// a simple polygon: star shaped, either way round
pub fn star(r: &mut Rng, n: usize) -> Vec<Point2> {
    let mut angles: Vec<f64> = (0..n).map(|i| (i as f64 + r.range(-0.3, 0.3)) / n as f64 * std::f64::consts::TAU).collect();
    angles.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let o = l2(r);
    let mut ps: Vec<Point2> = angles
        .into_iter()
        .map(|a| {
            let q = o + Point2::new(a.cos(), a.sin()) * r.range(1.0, 8.0);
            Point2::new((q.x * 64.0).round() / 64.0, (q.y * 64.0).round() / 64.0)
        })
        .collect();
    if r.chance(1, 2) {
        ps.reverse();
    }
    ps
}

/// a simple polygon with axis-parallel sides: a skyline of columns, every lattice point on it a vertex or not
fn skyline(r: &mut Rng, columns: usize) -> Vec<Point2> {
    let mut ps = vec![];
    let heights: Vec<i64> = (0..columns).map(|_| r.int(1, 4)).collect();
    let depths: Vec<i64> = (0..columns).map(|_| -r.int(0, 3)).collect();
    for i in 0..columns {
        ps.push((i as i64, depths[i]));
        ps.push((i as i64 + 1, depths[i]));
    }
    for i in (0..columns).rev() {
        ps.push((i as i64 + 1, heights[i]));
        ps.push((i as i64, heights[i]));
    }
    ps.into_iter().map(|(x, y)| Point2::new(x as f64, y as f64)).collect()
}

/// put further points on the sides, repeat some, turn, start anywhere, either way round
fn roughen(r: &mut Rng, ps: Vec<Point2>) -> Vec<Point2> {
    let n = ps.len();
    let mut out = vec![];
    let p = r.below(4);
    for i in 0..n {
        out.push(ps[i]);
        for k in 1..4 {
            if r.chance(p, 12) {
                out.push(ps[i] + (ps[(i + 1) % n] - ps[i]) * (k as f64 / 4.0));
            }
        }
        if r.chance(p, 24) {
            out.push(*out.last().unwrap());
        }
    }
    let k = r.below(out.len());
    out.rotate_left(k);
    if r.chance(1, 2) {
        out.reverse();
    }
    if r.chance(1, 2) {
        out = out.into_iter().map(|q| Point2::new(-q.y, q.x)).collect();
    }
    out
}

pub fn run(c: &mut Case) {
    if let Some(s) = c.scn.clone() {
        // a lattice triangle against all points around it
        let size = s[0];
        let q = |i: usize| Point2::new(s[i] as f64, s[i + 1] as f64);
        let k = c.rng.pick(&[1.0, 0.25, 3.0]);
        for x in -1..=size + 1 {
            for y in -1..=size + 1 {
                let p = Point2::new(x as f64, y as f64);
                inside(c, q(1) * k, q(3) * k, q(5) * k, p * k);
                if (x + y) % 2 == 0 {
                    dist2(c, q(1) * k, q(3) * k, p * k);
                    dist3(c, (q(1) * k).extend(1.0), (q(3) * k).extend(1.0 + x as f64), (p * k).extend(0.5));
                }
            }
        }
        return;
    }
    match c.rng.below(6) {
        0 => {
            for _ in 0..6 {
                let lattice = c.rng.chance(1, 2);
                let g = if lattice { l2 } else { p2 };
                let r = &mut c.rng;
                let (a, b, d) = (g(r), g(r), g(r));
                let (i, j) = (r.int(0, 8) as f64 / 8.0, r.int(0, 8) as f64 / 8.0);
                let p = match r.below(4) {
                    0 => g(r),
                    1 => a + (b - a) * i + (d - a) * (j * (1.0 - i)),
                    2 => a + (b - a) * i,
                    _ => a + (d - a) * j + (b - a) * -0.125,
                };
                if (b - a).perp_dot(d - a) < 0.0 {
                    inside(c, a, d, b, p);
                } else {
                    inside(c, a, b, d, p);
                }
            }
        }
        1 => {
            for k in 0..8 {
                let r = &mut c.rng;
                let (a, mut b) = (r.p3(), r.p3());
                let unit = r.unit_of_length();
                if r.chance(1, 6) {
                    b = a + r.d3() * r.pick(&[1e-3, 1e-6, 1e3]);
                } else if r.chance(1, 10) {
                    b = a;
                }
                let p = match r.below(5) {
                    4 => a + (b - a) * r.pick(&[0.0, 1.0]) + (b - a).any_orthogonal_vector() * r.range(0.0, 2.0),
                    0 => a + (b - a) * r.range(-0.5, 1.5) + r.d3() / 8.0,
                    1 => a + (b - a) * r.range(0.0, 1.0),
                    2 => r.pick(&[a, b]),
                    _ => r.p3(),
                };
                let (a, b, p) = (a * unit, b * unit, p * unit);
                if k % 2 == 0 {
                    dist3(c, a, b, p);
                } else {
                    dist2(c, a.truncate(), b.truncate(), p.truncate());
                }
            }
        }
        2 => {
            for _ in 0..4 {
                let r = &mut c.rng;
                let n = if r.chance(1, 8) { r.int(10, 60) } else { r.int(3, 9) } as usize;
                let ps = if r.chance(1, 2) { star(r, n) } else { skyline(r, (n + 1) / 2) };
                let o = r.pick(&[0.0, 0.0, 100.0, -1000.0]);
                let unit = r.unit_of_length();
                let ps: Vec<Point2> = roughen(r, ps).into_iter().map(|q| (q + Point2::new(o, -o)) * unit).collect();
                let n = ps.len();
                let area: f64 = (0..n).map(|i| (ps[i] - ps[0]).perp_dot(ps[(i + 1) % n] - ps[0])).sum();
                if area.abs() < 0.01 * unit * unit {
                    continue;
                }
                let e = Ev::new("ccw").v2s("ps", &ps);
                c.ev(e.out(guard(|| utils::is_polygon_counter_clockwise(&ps)), |e, o| e.b("out", o)));
            }
        }
        3 => {
            for k in 0..3 {
                let r = &mut c.rng;
                let n = r.int(3, 9) as usize;
                let mut ps = star(r, n);
                if r.chance(1, 3) {
                    ps = skyline(r, (n + 2) / 3);
                    ps = roughen(r, ps);
                }
                let n = ps.len();
                // straight vertices and repeated points
                if r.chance(1, 2) {
                    let i = r.below(n - 1);
                    ps.insert(i + 1, (ps[i] + ps[i + 1]) / 2.0);
                }
                if r.chance(1, 4) {
                    let i = r.below(n);
                    ps.insert(i, ps[i]);
                }
                let list = |v: &[usize]| is(&v.iter().map(|x| *x as i64).collect::<Vec<_>>());
                let mut ring: Vec<usize> = (0..ps.len()).collect();
                let out = if k == 0 {
                    guard(|| {
                        let (v, c) = utils::compute_vertex_convexity(&ps);
                        (v.into_iter().collect::<Vec<_>>(), c)
                    })
                } else {
                    r.shuffle(&mut ring);
                    ring.truncate(r.int(3, ring.len() as i64) as usize);
                    if k == 2 {
                        ring.sort();
                        ring.rotate_left(r.below(2));
                    }
                    guard(|| {
                        let mut v: VecDeque<usize> = ring.iter().cloned().collect();
                        let c = utils::find_concave_vertices(&ps, &mut v);
                        (v.into_iter().collect::<Vec<_>>(), c)
                    })
                };
                let e = Ev::new("convex").v2s("ps", &ps).raw("ring", &list(&ring));
                c.evs.push(e.out(out, |e, (v, c)| {
                    let mut c = c;
                    if k > 0 {
                        c.dedup();
                    }
                    e.raw("vertices", &list(&v)).raw("concave", &list(&c))
                }).done());
            }
        }
        4 => {
            for k in 0..4 {
                let r = &mut c.rng;
                let most = if r.chance(1, 6) { 18 } else { 4 };
                let (n, m) = (r.int(1, most) as usize, r.int(1, most) as usize);
                let unit = r.unit_of_length();
                let mut l = |r: &mut Rng| Point3::new(r.int(-2, 2) as f64, r.int(-2, 2) as f64, r.int(-2, 2) as f64 / 2.0) * unit;
                let mut ps: Vec<Point3> = (0..n * m).map(|_| l(r)).collect();
                let mut q = l(r);
                if r.chance(1, 3) {
                    // almost ties: the squared distances are exact in double precision, not in single
                    let mut s = |r: &mut Rng| Point3::new(r.int(-1, 1) as f64, r.int(-1, 1) as f64, r.int(-1, 1) as f64) * unit;
                    q = s(r);
                    ps = (0..n * m).map(|_| s(r) + Vec3::X * (unit * r.int(-1, 1) as f64 / 16777216.0)).collect();
                }
                let out = if k == 0 {
                    guard(|| utils::find_nearest_point(&ps, q))
                } else if k == 2 {
                    if ps.len() < 2 {
                        continue;
                    }
                    guard(|| geom3d::curve::Polyline::new(ps.clone()).nearest_vertex(q))
                } else {
                    let grid = Grid::from_vec(ps.clone(), m);
                    guard(|| {
                        let (i, j) = utils::find_nearest_point_in_grid(&grid, q);
                        i * m + j
                    })
                };
                c.ev(Ev::new("nearest").v3s("ps", &ps).v3("q", q).out(out, |e, o| e.n("out", o as i64)));
            }
        }
        _ => {
            for _ in 0..4 {
                let r = &mut c.rng;
                let (a, mut b, x) = (r.coord(), r.coord(), r.coord());
                if r.chance(1, 8) {
                    b = a;
                }
                let e = Ev::new("clamp").f("a", a).f("b", b).f("x", x);
                c.ev(e.out(guard(|| utils::clamp_in_range(x, (a, b))), |e, o| e.f("out", o)));
                let x = c.rng.unit();
                let n = c.rng.pick(&[1, 2, 3, 4, 5, 6, 40]);
                let (lo, hi) = c.rng.pick(&[(-8.0, 8.0), (-8.0, -1.0), (1.0, 8.0), (-1e300, 1e300), (0.0, 1e-300)]);
                let xs: Vec<f64> = (0..n).map(|_| c.rng.range(lo, hi)).collect();
                let e = Ev::new("minmax").fs("xs", &xs);
                let items: Vec<(usize, f64)> = xs.iter().cloned().enumerate().collect();
                c.ev(e.out(guard(|| utils::get_min_max_by_key(&items, |i| i.1)), |e, (a, b)| e.fs("out", &[a, b])));
                let d = c.rng.pick(&[0.0, 1.0, -1.0]) * c.rng.pick(&[1.0, 3.0, 1e-9, 1e-7, 1e100, 1e-15]);
                c.ev(Ev::new("inv").f("x", d).out(guard(|| utils::inv_or_zero(d)), |e, o| e.f("out", o)));
                let (s, t) = (c.rng.coord(), c.rng.pick(&[0.0, 1e-8, -9e-8, 1.2e-7, -1e-6, 9e-15, 2e-14, -1.0]));
                use utils::Tolerance;
                c.ev(Ev::new("near").f("a", s).f("b", s + t).b("n1", s.near(s + t)).b("n2", s.near2(s + t)));
                let e = Ev::new("at").f("a", a).f("b", b).f("x", x);
                c.ev(e.out(guard(|| utils::range_at((a, b), x)), |e, o| e.f("out", o)));
            }
        }
    }
}
