//! C20: SVG export.
use crate::gen::{AnyCurve, Rng};
use crate::rec::*;
use crate::Case;
use geom3d::curve::*;
use geom3d::*;

/// a curve type of the user's own: a parabola
#[derive(Debug)]
struct Parabola([Point3; 3]);
impl Curve for Parabola {
    fn get_point(&self, u: f64) -> Point3 {
        let [a, b, c] = self.0;
        a * ((1.0 - u) * (1.0 - u)) + b * (2.0 * u * (1.0 - u)) + c * (u * u)
    }
    fn project(&self, _: Point3) -> f64 {
        0.0
    }
}

/// a curve that is drawn by samples; x is linear in the parameter, or it is a circle in a level plane
#[derive(Clone)]
enum Drawn {
    Known(AnyCurve),
    Own([Point3; 3]),
}

impl Drawn {
    fn boxed(&self) -> Box<dyn Curve> {
        match self {
            Drawn::Known(c) => c.boxed(),
            Drawn::Own(p) => Box::new(Parabola(*p)),
        }
    }
    fn json(&self) -> String {
        match self {
            Drawn::Known(c) => c.json(),
            Drawn::Own(p) => AnyCurve::Bezier(p.to_vec()).json(),
        }
    }
    fn shift(&mut self, d: Vec3) {
        let w = |p: &mut Point4| *p += Point4::new(d.x * p.w, d.y * p.w, d.z * p.w, 0.0);
        match self {
            Drawn::Known(AnyCurve::Line(o, _)) | Drawn::Known(AnyCurve::Circle(o, ..)) => *o += d,
            Drawn::Known(AnyCurve::Polyline(ps)) | Drawn::Known(AnyCurve::Bezier(ps)) | Drawn::Known(AnyCurve::BSpline(_, _, ps)) => {
                ps.iter_mut().for_each(|p| *p += d)
            }
            Drawn::Known(AnyCurve::RBezier(ps)) | Drawn::Known(AnyCurve::RBSpline(_, _, ps)) => ps.iter_mut().for_each(w),
            Drawn::Own(ps) => ps.iter_mut().for_each(|p| *p += d),
        }
    }
}

/// control points whose x is linear in the parameter, for the given knots
fn graph(r: &mut Rng, p: usize, t: &[f64]) -> Vec<Point3> {
    let n = t.len() - p - 1;
    let (x0, dx) = (r.int(-64, 64) as f64 / 16.0, r.pick(&[1.0, -1.0, 2.0, 4.0, -0.5]));
    let domain = t[n] - t[p];
    (0..n)
        .map(|i| {
            let g = t[i + 1..i + p + 1].iter().sum::<f64>() / p as f64;
            let q = r.d3();
            Point3::new(x0 + dx * 8.0 * (g - t[p]) / domain, q.y, q.z)
        })
        .collect()
}

fn distinct(r: &mut Rng, n: usize) -> Vec<Point3> {
    loop {
        let vs = if r.chance(2, 3) { r.d3s(n) } else { r.p3s(n) };
        if vs.windows(2).all(|w| (w[1] - w[0]).truncate().length() > 0.1) {
            return vs;
        }
    }
}

/// part of a range, in the given direction
fn part(r: &mut Rng, (a, b): (f64, f64), whole: bool, against: bool) -> (f64, f64) {
    let (a, b) = if whole {
        (a, b)
    } else {
        let i = r.int(0, 7);
        let j = r.int(i + 1, 8);
        let (i, j) = if i == 0 && j == 8 { (1, 7) } else { (i, j) };
        (a + (b - a) * i as f64 / 8.0, a + (b - a) * j as f64 / 8.0)
    };
    if against {
        (b, a)
    } else {
        (a, b)
    }
}

/// kind, against the curve, part of it, strokes
fn segment(r: &mut Rng, s: [i64; 4]) -> (Drawn, (f64, f64)) {
    let (against, whole, n) = (s[1] == 1, s[2] == 0, s[3] as usize);
    use AnyCurve::*;
    match s[0] {
        0 => {
            let c = AnyCurve::line(r);
            let i = r.int(-8, 7);
            let j = r.int(i + 1, 9);
            let (a, b) = (i as f64 / 2.0, j as f64 / 2.0);
            (Drawn::Known(c), if against { (b, a) } else { (a, b) })
        }
        1 => {
            let mut vs = distinct(r, n + 1);
            if r.chance(1, 6) {
                let k = r.below(vs.len());
                vs.insert(k, vs[k]);
            }
            let mut range = part(r, (0.0, 1.0), whole, against);
            if whole && r.chance(1, 3) {
                // parameters outside belong to the ends
                range = if against { (vs.len() as f64 - 1.0, 0.0) } else { (0.0, vs.len() as f64 - 1.0) };
            }
            (Drawn::Known(Polyline(vs)), range)
        }
        2 => {
            let clamped = r.chance(2, 3);
            let t = if n == 1 && clamped {
                let (a, b) = (r.int(-3, 0) as f64, r.int(1, 4) as f64);
                vec![a, a, a, a, b, b, b, b]
            } else {
                // continuous: no knot of multiplicity 4 but at the ends
                loop {
                    let t = r.knots(3, 3 + n, clamped);
                    let last = t.len() - 4;
                    if t.windows(4).enumerate().all(|(i, w)| w[0] < w[3] || i == 0 || i == last) {
                        break t;
                    }
                }
            };
            let m = t.len();
            let range = part(r, (t[3], t[m - 4]), whole, against);
            let ps = if r.chance(2, 3) { r.d3s(m - 4) } else { r.p3s(m - 4) };
            (Drawn::Known(BSpline(3, t, ps)), range)
        }
        _ => {
            let unit = |d: usize| KnotVector::bezier_knot(d).0;
            let (c, d) = match r.below(7) {
                0 => {
                    let d = r.pick(&[2usize, 3, 4, 5]);
                    (Drawn::Known(Bezier(graph(r, d, &unit(d)))), (0.0, 1.0))
                }
                1 => {
                    let d = r.pick(&[2usize, 3]);
                    let w = r.pick(&[1.0, 0.5, 3.0]);
                    (Drawn::Known(RBezier(graph(r, d, &unit(d)).iter().map(|p| (*p * w).extend(w)).collect())), (0.0, 1.0))
                }
                2 => {
                    let d = r.pick(&[2usize, 4]);
                    let t = unit_knots(r, d);
                    let dom = (t[d], t[t.len() - 1 - d]);
                    (Drawn::Known(BSpline(d, t.clone(), graph(r, d, &t))), dom)
                }
                3 => {
                    let d = r.pick(&[2usize, 3]);
                    let t = unit_knots(r, d);
                    let w = r.pick(&[1.0, 0.5, 3.0]);
                    let dom = (t[d], t[t.len() - 1 - d]);
                    (Drawn::Known(RBSpline(d, t.clone(), graph(r, d, &t).iter().map(|p| (*p * w).extend(w)).collect())), dom)
                }
                4 => {
                    let g = graph(r, 2, &unit(2));
                    (Drawn::Own([g[0], g[1], g[2]]), (0.0, 1.0))
                }
                _ => {
                    let a = r.angle();
                    let x = Vec3::new(a.cos(), a.sin(), 0.0);
                    let z = if r.chance(1, 2) { Vec3::Z } else { -Vec3::Z };
                    let a0 = r.int(-8, 8) as f64 / 4.0;
                    let turn = if whole { std::f64::consts::TAU } else { r.range(0.3, 6.0) };
                    let radius = r.int(4, 64) as f64 / 8.0;
                    let range = if against { (a0 + turn, a0) } else { (a0, a0 + turn) };
                    return (Drawn::Known(Circle(r.d3(), radius, z, x)), range);
                }
            };
            (c, part(r, d, whole, against))
        }
    }
}

/// simple knots, well apart, so that x can be linear
fn unit_knots(r: &mut Rng, p: usize) -> Vec<f64> {
    let (a, inner) = (r.int(-2, 2) as f64, r.below(3));
    let mut t = vec![a; p + 1];
    for i in 0..inner {
        t.push(a + 1.0 + i as f64);
    }
    t.extend(vec![a + 1.0 + inner as f64; p + 1]);
    t
}

// ---------------------------------------------------------------- reading the file

fn attrs(tag: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    let mut rest = tag;
    while let Some(i) = rest.find('=') {
        let name = rest[..i].split_whitespace().last().unwrap_or("").to_string();
        let v = rest[i + 1..].trim_start();
        let q = match v.chars().next() {
            Some(q) if q == '"' || q == '\'' => q,
            _ => break,
        };
        match v[1..].find(q) {
            Some(e) => {
                out.push((name, v[1..1 + e].to_string()));
                rest = &v[e + 2..];
            }
            None => break,
        }
    }
    out
}
fn num(s: &str) -> String {
    s.trim().parse::<f64>().map(f64s).unwrap_or("[0,0,99999]".into())
}
/// [name, [arguments]] for every transformation of an attribute
fn transforms(s: &str) -> Vec<String> {
    let mut out = vec![];
    for f in s.split(')') {
        if let Some((name, args)) = f.split_once('(') {
            let a: Vec<&str> = args.split([' ', ',', '\t', '\n']).filter(|x| !x.is_empty()).collect();
            out.push(format!("[{},{}]", esc(name.trim_matches([' ', ',', '\n'])), list(&a, |x| num(x))));
        }
    }
    out
}
/// [command, [numbers]] for every command of path data
fn commands(d: &str) -> String {
    let mut out: Vec<(char, Vec<String>)> = vec![];
    let b: Vec<char> = d.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_alphabetic() {
            out.push((c, vec![]));
            i += 1;
        } else if c.is_ascii_digit() || "+-.".contains(c) {
            let s = i;
            i += 1;
            let mut dot = c == '.';
            while i < b.len() {
                let e = matches!(b[i - 1], 'e' | 'E');
                if b[i].is_ascii_digit() || (e && "+-".contains(b[i])) {
                } else if b[i] == '.' && !dot {
                    dot = true;
                } else if matches!(b[i], 'e' | 'E') && !e {
                    dot = true;
                } else {
                    break;
                }
                i += 1;
            }
            let text: String = b[s..i].iter().collect();
            match out.last_mut() {
                Some(l) => l.1.push(num(&text)),
                None => out.push(('?', vec![])),
            }
        } else {
            if !c.is_whitespace() && c != ',' {
                out.push(('?', vec![]));
            }
            i += 1;
        }
    }
    list(&out, |(c, ns)| format!("[\"{}\",[{}]]", c, ns.join(",")))
}

fn read(text: &str) -> (String, Vec<String>) {
    let mut stack: Vec<(String, Vec<String>)> = vec![];
    let mut page = Ev::new("page");
    let mut paths = vec![];
    let mut rest = text;
    while let Some(i) = rest.find('<') {
        let e = match rest[i..].find('>') {
            Some(e) => i + e,
            None => break,
        };
        let tag = rest[i + 1..e].trim();
        rest = &rest[e + 1..];
        if tag.starts_with(['?', '!']) {
            continue;
        }
        if tag.starts_with('/') {
            stack.pop();
            continue;
        }
        let (body, single) = match tag.strip_suffix('/') {
            Some(b) => (b, true),
            None => (tag, false),
        };
        let name = body.split_whitespace().next().unwrap_or("").to_string();
        let a = attrs(&body[name.len()..]);
        let get = |k: &str| a.iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or_default();
        if name == "svg" {
            let mm = |s: String| s.trim().strip_suffix("mm").map(num).unwrap_or("[0,0,99999]".into());
            let vb = get("viewBox");
            let v: Vec<&str> = vb.split([' ', ',']).filter(|x| !x.is_empty()).collect();
            page = Ev::new("page").raw("w", &mm(get("width"))).raw("h", &mm(get("height"))).raw("box", &list(&v, |x| num(x)));
        }
        let own = transforms(&get("transform"));
        if name == "path" {
            let mut all: Vec<String> = stack.iter().flat_map(|s| s.1.clone()).collect();
            all.extend(own.clone());
            paths.push(Ev::new("path").raw("tr", &format!("[{}]", all.join(","))).raw("d", &commands(&get("d"))).done());
        }
        if !single {
            stack.push((name, own));
        }
    }
    (page.done(), paths)
}

pub fn run(c: &mut Case) {
    // a composite curve per scenario, or a few random ones
    let wanted: Vec<Vec<[i64; 4]>> = match &c.scn {
        Some(s) => vec![s[1..].chunks(4).map(|q| [q[0], q[1], q[2], q[3]]).collect()],
        None => {
            let r = &mut c.rng;
            let n = if r.chance(1, 12) { r.int(5, 15) as usize } else { r.below(5) };
            let many = r.chance(1, 12);
            let one = |r: &mut Rng| {
                let k = r.int(0, 3);
                let strokes = if k == 1 && r.chance(1, 100) { 2000 } else if k == 1 && r.chance(1, 8) { 30 } else if r.chance(1, 8) { 12 } else { 5 };
                [k, r.int(0, 1), r.int(0, 1), if k == 0 { 1 } else { r.int(1, strokes) }]
            };
            (0..n)
                .map(|_| {
                    let m = if many { r.int(5, 20) as usize } else { r.below(6) };
                    (0..m).map(|_| one(r)).collect()
                })
                .collect()
        }
    };
    let r = &mut c.rng;
    let (w, h) = match r.below(4) {
        0 => (370.0, 245.0),
        1 => (r.int(1, 500) as f64, r.int(1, 500) as f64),
        2 => (r.int(1, 4000) as f64 / 8.0, r.int(1, 4000) as f64 / 8.0),
        _ => (r.range(0.1, 2000.0), r.range(0.1, 2000.0)),
    };
    let mut model: Model<TriangleMesh> = Model::new();
    let mut evs = vec![Ev::new("model").f("w", w).f("h", h).done()];
    for kinds in &wanted {
        let mut pen: Option<Point3> = None;
        let mut segs = vec![];
        let mut descs = vec![];
        for k in kinds {
            let tol = r.pick(&[0.01, 0.01, 0.1, 0.02]);
            // evaluation is checked elsewhere; here it only joins the segments
            let made = guard(|| {
                let (mut curve, range) = segment(r, *k);
                let start = curve.boxed().get_point(range.0);
                let shift = match pen {
                    // z goes its own way
                    Some(p) => p - start,
                    None => Vec3::ZERO,
                };
                curve.shift(shift);
                let end = curve.boxed().get_point(range.1);
                (curve, range, end)
            });
            let (curve, range, end) = match made {
                Ok(m) => m,
                Err(_) => return,
            };
            pen = Some(end);
            descs.push(format!("{{\"c\":{},\"kind\":{},\"a\":{},\"b\":{},\"tol\":{}}}", curve.json(), k[0], f64s(range.0), f64s(range.1), f64s(tol)));
            segs.push(CurveSegment { curve: curve.boxed(), parameter_range: range, tolerance: tol, parameter_division: 4 });
        }
        evs.push(Ev::new("curve").raw("segs", &format!("[{}]", descs.join(","))).done());
        model.add_curve(Polycurve { segments: segs });
    }
    if r.chance(1, 4) {
        std::fs::write("m.svg", "x".repeat(100_000)).unwrap();
    }
    let res = guard(|| model.save_as_svg("m.svg", (w, h)));
    let text = std::fs::read_to_string("m.svg").unwrap_or_default();
    std::fs::remove_file("m.svg").ok();
    let (page, paths) = read(&text);
    let save = Ev::new("save").n("paths", paths.len() as i64).out(res, |e, v| e.s("err", &v.err().map(|x| x.to_string()).unwrap_or_default()));
    evs.push(save.done());
    evs.push(page);
    evs.extend(paths);
    c.evs.extend(evs);
}
