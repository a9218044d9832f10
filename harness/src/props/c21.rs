//! C21: point-cloud files.
use super::c18::{bits, number};
use crate::gen::Rng;
use crate::rec::*;
use crate::Case;
use geom3d::points::*;
use geom3d::*;

fn finite(r: &mut Rng) -> f64 {
    let x = number(r);
    if x.is_finite() {
        x
    } else {
        2.5
    }
}
fn p3(r: &mut Rng) -> Point3 {
    Point3::new(finite(r), finite(r), finite(r))
}
fn rows(v: &[Vec<f64>]) -> String {
    list(v, |r| list(r, |x| bits(*x)))
}
fn err<T>(r: std::io::Result<T>) -> (String, Option<T>) {
    match r {
        Ok(v) => (String::new(), Some(v)),
        Err(e) => (format!("error {}", e), None),
    }
}
const BAD: [&str; 17] = ["1\u{a0}2", "3\u{b}", "\u{2003}4", "abc", "1.2.3", "--1", "1e", "0x10", "1_000", "1.5f", "1;2", "x", ".", "-", "1e+-3", "\u{662}", "12a"];
const FIRST: [&str; 8] = ["P\u{a0}1", "Gr\u{f6}\u{df}e", "\u{70b9}", "a#b", "\"q\"", "v\u{b}1", "1\u{2003}2", "-;:"];
const NAMES: [&str; 3] = ["a.xyz", "b.txt", "cloud"];

/// a number as people write them
fn literal(r: &mut Rng) -> String {
    let x = finite(r);
    match r.below(7) {
        0 => format!("{:e}", x),
        1 => format!("{}", x),
        2 => format!("+{}", r.int(0, 99)),
        3 => format!("-.{}", r.int(0, 99)),
        4 => format!("{}.", r.int(0, 99)),
        5 => format!("{}E{}", r.int(-9, 9), r.int(-12, 12)),
        _ => format!("{:.3}", r.coord()),
    }
}
fn gap(r: &mut Rng) -> String {
    (0..r.int(1, 3)).map(|_| r.pick(&[' ', ' ', ',', '\t'])).collect()
}

/// text of a file with lines of the given (columns, malformed column), and its description
fn compose(r: &mut Rng, shape: &[(i64, i64)]) -> (String, String) {
    let mut text = String::new();
    let mut desc = vec![];
    for (i, &(n, bad)) in shape.iter().enumerate() {
        if n < 0 {
            text.push_str(r.pick(&["#", "# 1 2 3", "#1 2 3", "# x y z", "## 1,2,3,4", "#\t1\t2\t3"]));
            desc.push("{\"comment\":true,\"cols\":[]}".to_string());
        } else {
            if r.chance(1, 5) {
                text.push_str(&gap(r));
            }
            let mut cols = vec![];
            for k in 1..=n {
                if k > 1 {
                    text.push_str(&gap(r));
                }
                let word = if n == 4 && k == 1 && r.chance(1, 3) {
                    // the first of four columns may be anything
                    FIRST[r.below(FIRST.len())].to_string()
                } else if k == bad { BAD[r.below(BAD.len())].to_string() } else { literal(r) };
                cols.push(word.parse::<f64>().map(bits).unwrap_or("[]".into()));
                text.push_str(&word);
            }
            if r.chance(1, 5) {
                text.push_str(&gap(r));
            }
            desc.push(format!("{{\"comment\":false,\"cols\":[{}]}}", cols.join(",")));
        }
        if i + 1 < shape.len() || r.chance(2, 3) {
            text.push_str(r.pick(&["\n", "\n", "\r\n"]));
        }
    }
    (text, format!("[{}]", desc.join(",")))
}

pub fn run(c: &mut Case) {
    let scn = c.scn.clone();
    let r = &mut c.rng;
    let mut evs = vec![Ev::new("start").done()];
    let load = |name: &str| {
        let res = guard(|| err(load_point_cloud(name)));
        Ev::new("load")
            .s("name", name)
            .out(res, |e, (m, v)| {
                let v: Vec<Vec<f64>> = v.unwrap_or_default().iter().map(|p| vec![p.x, p.y, p.z]).collect();
                e.s("err", &m).raw("rows", &rows(&v))
            })
            .done()
    };
    let look = |name: &str| {
        let text = std::fs::read_to_string(name).unwrap_or_default();
        let v: Vec<String> = text
            .lines()
            .map(|l| {
                let w: Vec<&str> = l.split([' ', ',', '\t']).filter(|x| !x.is_empty()).collect();
                list(&w, |x| x.parse::<f64>().map(bits).unwrap_or("[]".into()))
            })
            .collect();
        Ev::new("look").s("name", name).raw("rows", &format!("[{}]", v.join(","))).done()
    };
    if let Some(s) = scn {
        let shape: Vec<(i64, i64)> = s[1..].chunks(2).map(|q| (q[0], q[1])).collect();
        let (text, desc) = compose(r, &shape);
        std::fs::write(NAMES[0], text).unwrap();
        evs.push(Ev::new("write").s("name", NAMES[0]).raw("lines", &desc).done());
        evs.push(load(NAMES[0]));
        evs.push(load(NAMES[1]));
    } else {
        for _ in 0..r.int(2, 8) {
            let name = r.pick(&NAMES);
            let n = match r.below(40) {
                0..=3 => r.below(300),
                4 => r.int(400, 1500) as usize,
                _ => r.below(6),
            };
            match r.below(8) {
                7 => {
                    // a malformed number need not even be text
                    let at = r.below(3);
                    let mut b = b"1 2 3\n".to_vec();
                    for k in 0..3 {
                        b.extend(if k == at { r.pick(&[&b"\xff"[..], b"1\xe2\x28", b"2\x80", b"\0", b"1\x002"]) } else { b"7" });
                        b.push(b' ');
                    }
                    b.extend(b"\n4 5 6\n");
                    std::fs::write(name, b).unwrap();
                    let cols: Vec<String> = (0..3).map(|k| if k == at { "[]".into() } else { bits(7.0) }).collect();
                    let good = |x: f64| format!("{{\"comment\":false,\"cols\":[{},{},{}]}}", bits(x), bits(x + 1.0), bits(x + 2.0));
                    let desc = format!("[{},{{\"comment\":false,\"cols\":[{}]}},{}]", good(1.0), cols.join(","), good(4.0));
                    evs.push(Ev::new("write").s("name", name).raw("lines", &desc).done());
                    evs.push(load(name));
                }
                0 | 1 => {
                    let ps: Vec<Point3> = (0..n).map(|_| p3(r)).collect();
                    let ps = if r.chance(1, 4) {
                        let k = r.coord();
                        let small: Vec<Point3> = (0..n).map(|_| r.p3()).collect();
                        let res = guard(|| scale_points(&small, k));
                        let out = res.clone().unwrap_or_default();
                        evs.push(Ev::new("scale").v3s("ps", &small).f("k", k).out(res, |e, v| e.v3s("out", &v)).done());
                        out
                    } else {
                        ps
                    };
                    let v: Vec<Vec<f64>> = ps.iter().map(|p| vec![p.x, p.y, p.z]).collect();
                    let res = guard(|| err(save_point_cloud(&ps, name)).0);
                    evs.push(Ev::new("save").s("name", name).raw("rows", &rows(&v)).out(res, |e, m| e.s("err", &m)).done());
                    evs.push(load(name));
                }
                2 => {
                    let ps: Vec<(Point3, Vec3)> = (0..n).map(|_| (p3(r), p3(r))).collect();
                    let v: Vec<Vec<f64>> = ps.iter().map(|(p, q)| vec![p.x, p.y, p.z, q.x, q.y, q.z]).collect();
                    let res = guard(|| err(save_point_cloud_with_normal(&ps, name)).0);
                    evs.push(Ev::new("save").s("name", name).raw("rows", &rows(&v)).out(res, |e, m| e.s("err", &m)).done());
                    evs.push(look(name));
                }
                3 => {
                    let ps: Vec<Point2> = (0..n).map(|_| Point2::new(finite(r), finite(r))).collect();
                    let v: Vec<Vec<f64>> = ps.iter().map(|p| vec![p.x, p.y]).collect();
                    let res = guard(|| err(save_points(&ps, name)).0);
                    evs.push(Ev::new("save").s("name", name).raw("rows", &rows(&v)).out(res, |e, m| e.s("err", &m)).done());
                    evs.push(look(name));
                }
                4 => {
                    let shape: Vec<(i64, i64)> = (0..n)
                        .map(|_| {
                            let k = r.pick(&[-1, 0, 1, 2, 3, 3, 3, 3, 4, 4, 4, 5, 6, 7]);
                            (k, if k > 0 && r.chance(1, 16) { r.int(1, k) } else { 0 })
                        })
                        .collect();
                    let (text, desc) = compose(r, &shape);
                    std::fs::write(name, text).unwrap();
                    evs.push(Ev::new("write").s("name", name).raw("lines", &desc).done());
                    evs.push(load(name));
                }
                5 => {
                    std::fs::remove_file(name).ok();
                    evs.push(Ev::new("remove").s("name", name).done());
                    evs.push(load(name));
                }
                _ => evs.push(load(name)),
            }
        }
    }
    for n in NAMES {
        std::fs::remove_file(n).ok();
    }
    c.evs.extend(evs);
}
