//! C05: the knot vector type.
use crate::rec::*;
use crate::Case;
use geom3d::*;

pub fn run(c: &mut Case) {
    let p;
    let mut k: KnotVector;
    if let Some(s) = c.scn.clone() {
        let (sp, t) = super::knot_scenario(&s);
        p = sp;
        let e = Ev::new("new").fs("in", &t);
        k = KnotVector::new(t);
        c.ev(e.fs("t", &k));
    } else {
        p = if c.rng.chance(1, 10) { c.rng.int(6, 9) } else { c.rng.int(0, 5) } as usize;
        let n = p + 1 + if c.rng.chance(1, 10) { c.rng.below(20) } else { c.rng.below(6) };
        match c.rng.below(6) {
            0 => {
                k = KnotVector::bezier_knot(p);
                c.ev(Ev::new("bezier").n("p", p as i64).fs("t", &k));
            }
            1 => {
                let d = if c.rng.chance(1, 6) { c.rng.int(10, 60) } else { c.rng.int(1, 9) };
                k = KnotVector::uniform_knot(p, d as usize);
                c.ev(Ev::new("uniform").n("p", p as i64).n("n", d).fs("t", &k));
            }
            2 => {
                let clamped = c.rng.chance(1, 2);
                let t = c.rng.scaled_knots(p, n, clamped);
                let mut values: Vec<f64> = Vec::new();
                let mut ms: Vec<usize> = Vec::new();
                for x in t {
                    if values.last() == Some(&x) {
                        *ms.last_mut().unwrap() += 1;
                    } else {
                        values.push(x);
                        ms.push(1);
                    }
                }
                if c.rng.chance(1, 5) {
                    let at = c.rng.below(values.len());
                    values.insert(at, values[at]);
                    ms.insert(at, 0);
                }
                let e = Ev::new("mults").fs("values", &values).raw("ms", &list(&ms, |m| m.to_string()));
                k = KnotVector::from_values_and_multiplicities(values, ms);
                c.ev(e.fs("t", &k));
            }
            _ => {
                let clamped = c.rng.chance(1, 2);
                let mut t = c.rng.scaled_knots(p, n, clamped);
                if c.rng.chance(1, 4) {
                    // a range that is [0, 1], or almost
                    let d = c.rng.pick(&[0.0, 1e-3, 1e-5, 1e-7, 3e-8, 1e-9, 1e-12]);
                    let (x, y) = (d * c.rng.range(-1.0, 1.0), 1.0 + d * c.rng.range(-1.0, 1.0));
                    let (a, b) = (t[0], t[t.len() - 1]);
                    for k in t.iter_mut() {
                        *k = if *k == b { y } else { x + (*k - a) / (b - a) * (y - x) };
                    }
                }
                let e = Ev::new("new").fs("in", &t);
                k = if c.rng.chance(1, 2) { KnotVector::new(t) } else { t.into_iter().collect() };
                c.ev(e.fs("t", &k));
            }
        }
    }
    let e = Ev::new("normalize").out(guard(|| k.normalize()), |e, k| e.fs("t", &k));
    c.ev(e);
    let rounds = if c.thorough { 12 } else { 6 };
    let scenario = c.scn.is_some();
    if scenario {
        for u in super::half_steps(&k) {
            basis(c, &k, p, u);
        }
    }
    let mut adds = 0;
    for _ in 0..rounds {
        let t = k.0.clone();
        let m = t.len();
        let u = {
            let us = c.rng.params(&t, 1);
            us[2]
        };
        match c.rng.below(11) {
            0 | 1 if adds < 3 => {
                adds += 1;
                let (a, b) = (t[0], t[m - 1]);
                let u = match c.rng.below(8) {
                    0 => a - (b - a) * 0.25,
                    1 => b + (b - a) * 0.25,
                    _ => u,
                };
                // knots that differ by rounding only count as equal
                let u = t.iter().copied().find(|x| (x - u).abs() < 1e-14).unwrap_or(u);
                let e = Ev::new("add").f("u", u).out(guard(|| k.add_knot(u)), |e, at| e.n("at", at as i64));
                c.ev(e.fs("t", &k));
            }
            2 => {
                let e = Ev::new("normalize").out(guard(|| k.normalize()), |e, k| e.fs("t", &k));
                c.ev(e);
            }
            3 => {
                let e = Ev::new("shrink").out(guard(|| k.shrink()), |e, k| e.fs("t", &k));
                c.ev(e);
            }
            4 => {
                let a = c.rng.below(m);
                let b = a + 1 + c.rng.below(m - a);
                let e = Ev::new("sub").n("a", a as i64).n("b", b as i64).out(guard(|| k.sub_vec(a..b)), |e, k| e.fs("t", &k));
                c.ev(e);
            }
            5 => {
                let e = Ev::new("range").out(guard(|| k.range()), |e, (a, b)| e.fs("out", &[a, b]));
                c.ev(e);
            }
            6 => {
                let d = c.rng.below(m.min(5));
                let e = Ev::new("spans").n("k", d as i64).out(guard(|| k.spans(d)), |e, s| e.fs("out", &s));
                c.ev(e);
            }
            7 => {
                let i = c.rng.below(m);
                let e = Ev::new("mult").n("i", i as i64).out(guard(|| k.multiplicity(i)), |e, s| e.n("out", s as i64));
                c.ev(e);
            }
            8 => {
                let e = Ev::new("span").f("u", u).out(guard(|| k.span_index(u)), |e, s| e.n("out", s as i64));
                c.ev(e);
            }
            _ => {
                if t.len() > 2 * p + 1 && t[p] < t[t.len() - p - 1] {
                    basis(c, &k, p, u)
                }
            }
        }
    }
}

fn basis(c: &mut Case, k: &KnotVector, p: usize, u: f64) {
    let e = Ev::new("basis").n("p", p as i64).f("u", u).out(guard(|| k.bspline_basis(p, u)), |e, b| e.fs("out", &b));
    c.ev(e);
    let e = Ev::new("span").f("u", u).out(guard(|| k.span_index(u)), |e, s| e.n("out", s as i64));
    c.ev(e);
}
