//! C18: OBJ export.
use crate::gen::Rng;
use crate::rec::*;
use crate::Case;
use geom3d::*;

/// a bit pattern, in three chunks
pub fn bits(x: f64) -> String {
    let b = x.to_bits();
    format!("[{},{},{}]", b >> 44, (b >> 22) & 0x3f_ffff, b & 0x3f_ffff)
}
fn bits3(p: &Point3) -> String {
    format!("[{},{},{}]", bits(p.x), bits(p.y), bits(p.z))
}

pub fn number(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => f64::from_bits(r.next() & 0x7fff_ffff_ffff_ffff).min(1e300) * if r.chance(1, 2) { 1.0 } else { -1.0 },
        1 => r.pick(&[0.0, -0.0, 1e-310, 5e-324, 1.7976931348623157e308, 1e22, 123456789.0]),
        2 => r.range(-1.0, 1.0) * 10f64.powi(r.int(-20, 20) as i32),
        3 => r.int(-9, 9) as f64,
        _ => r.coord(),
    }
}

pub fn mesh(r: &mut Rng, nv: usize, normals: bool, nt: usize, num: &dyn Fn(&mut Rng) -> f64) -> TriangleMesh {
    let mut p = |r: &mut Rng| {
        let (x, y, z) = (num(r), num(r), num(r));
        // a NaN pattern would not be a coordinate
        let f = |v: f64| if v.is_finite() { v } else { 1.5 };
        Point3::new(f(x), f(y), f(z))
    };
    // the last vertices may be used by no triangle, and have no normals, or normals may be left over
    let used = if nv > 1 && r.chance(1, 5) { 1 + r.below(nv - 1) } else { nv };
    let nn = if used < nv { r.int(used as i64, nv as i64 + 2) as usize } else { nv };
    TriangleMesh {
        vertices: (0..nv).map(|_| p(r)).collect(),
        normals: if normals { (0..nn).map(|_| p(r)).collect() } else { vec![] },
        triangles: (0..nt * 3).map(|_| r.below(used) as u32).collect(),
    }
}

/// face sizes: from the scenario or random
pub fn sizes(c: &mut Case) -> Vec<(usize, bool, usize)> {
    if let Some(s) = &c.scn {
        return s[1..].chunks(3).map(|f| (f[0] as usize, f[1] == 1, f[2] as usize)).collect();
    }
    let r = &mut c.rng;
    let n = if r.chance(1, 12) { r.int(7, 40) as usize } else { r.below(7) };
    let big = r.chance(1, 20);
    (0..n)
        .map(|_| {
            let nv = if big { r.int(10, 60) as usize } else { r.below(9) };
            let nt = if big { r.below(80) } else { r.below(8) };
            (nv, r.chance(1, 2), if nv == 0 { 0 } else { nt })
        })
        .collect()
}

/// vertex i of a mesh too large to be written down
fn counted(first: usize, n: usize) -> Vec<Point3> {
    (first..first + n).map(|i| Point3::new(i as f64, -(i as f64), 0.5)).collect()
}

/// a model with more vertices than 16 bits count; what a reader finds at each corner is recorded by number
fn huge(r: &mut Rng) -> Ev {
    let mut model: Model<TriangleMesh> = Model::new();
    let (mut nv, mut nn) = (0, 0);
    let mut faces = vec![];
    let very = r.chance(1, 6);
    for _ in 0..if very { 2 } else { r.int(1, 3) } {
        let n = if very { r.pick(&[300, 66_000, 1_060_000]) } else { r.pick(&[300, 40_000, 65_536, 66_000]) };
        let with_normals = !very && r.chance(1, 2);
        let triangles: Vec<u32> = (0..12).map(|_| r.pick(&[0, n - 1, n / 2, n - 3]) as u32).collect();
        faces.push(format!("{{\"n\":{},\"normals\":{},\"ts\":{}}}", n, with_normals, tris(&triangles)));
        model.add_face(TriangleMesh {
            vertices: counted(nv, n),
            normals: if with_normals { counted(nn, n) } else { vec![] },
            triangles,
        });
        nv += n;
        nn += if with_normals { n } else { 0 };
    }
    let res = guard(|| model.save_as_obj("huge.obj"));
    let text = std::fs::read_to_string("huge.obj").unwrap_or_default();
    std::fs::remove_file("huge.obj").ok();
    let (mut v, mut vn, mut fs) = (vec![], vec![], vec![]);
    // the number of a point, from 1, or 0 if it is none of the given ones
    let number = |w: &[&str]| -> i64 {
        let c: Vec<f64> = w[1..].iter().filter_map(|x| x.parse().ok()).collect();
        if c.len() == 3 && c[0] == -c[1] && c[2] == 0.5 && c[0].fract() == 0.0 { c[0] as i64 + 1 } else { 0 }
    };
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first() {
            Some(&"v") => v.push(number(&w)),
            Some(&"vn") => vn.push(number(&w)),
            Some(&"f") => {
                let corner = |s: &str| -> String {
                    let ix: Vec<usize> = s.split('/').map(|x| x.parse().unwrap_or(0)).collect();
                    let at = |k: usize, l: &[i64]| ix.get(k).and_then(|i| i.checked_sub(1)).and_then(|i| l.get(i)).copied().unwrap_or(0);
                    format!("[{},{}]", at(0, &v), at(2, &vn))
                };
                fs.push(list(&w[1..], |s| corner(s)));
            }
            _ => {}
        }
    }
    // the first line out of order, from 1, or 0
    let order = |l: &[i64]| l.iter().enumerate().position(|(i, n)| *n != i as i64 + 1).map_or(0, |i| i as i64 + 1);
    Ev::new("huge")
        .raw("faces", &format!("[{}]", faces.join(",")))
        .n("v", v.len() as i64)
        .n("vn", vn.len() as i64)
        .n("vorder", order(&v))
        .n("vnorder", order(&vn))
        .raw("fs", &format!("[{}]", fs.join(",")))
        .out(res, |e, v| e.s("err", &v.err().map(|x| x.to_string()).unwrap_or_default()))
}

/// the same with patches of surfaces as faces
fn patches(r: &mut Rng, out: &mut Vec<Ev>) {
    use crate::gen::AnySurface;
    use geom3d::surface::{Surface, SurfacePatch};
    let mut model: Model<SurfacePatch<Box<dyn Surface>>> = Model::new();
    out.push(Ev::new("model"));
    for _ in 0..r.int(1, 3) {
        let s = AnySurface::bspline(r, true);
        let div = (r.int(1, 3) as usize, r.int(1, 3) as usize);
        let patch = SurfacePatch { surface: s.boxed(), parameter_range: ((0.0, 0.5), (0.25, 0.75)), parameter_division: div };
        let m = patch.get_triangle_mesh();
        if m.vertices.iter().chain(&m.normals).any(|p| !p.is_finite()) {
            continue;
        }
        out.push(face("face", &m));
        model.add_face(patch);
    }
    let res = guard(|| model.save_as_obj("p.obj"));
    let text = std::fs::read_to_string("p.obj").unwrap_or_default();
    std::fs::remove_file("p.obj").ok();
    out.push(Ev::new("save").out(res, |e, v| e.s("err", &v.err().map(|x| x.to_string()).unwrap_or_default())).raw("lines", &lines(&text)));
}

fn face(op: &str, m: &TriangleMesh) -> Ev {
    Ev::new(op).raw("vs", &list(&m.vertices, bits3)).raw("ns", &list(&m.normals, bits3)).raw("ts", &tris(&m.triangles))
}

/// one mesh written with indices that start anywhere, and a boundary saved on its own
fn parts(r: &mut Rng, m: &TriangleMesh, out: &mut Vec<Ev>) {
    let starts = (r.pick(&[1, 1, 2, 100, 70_000, 1_100_000, 20_000_000]), r.pick(&[1, 3, 70_001, 1_100_003, 20_000_001]));
    let mut text: Vec<u8> = vec![];
    let res = guard(|| m.write_obj(&mut text, starts.0, starts.1));
    let e = face("part", m).n("v", starts.0 as i64).n("n", starts.1 as i64).n("count", m.triangle_count() as i64);
    out.push(e.out(res, |e, v| e.s("err", &v.err().map(|x| x.to_string()).unwrap_or_default())).raw("lines", &lines(&String::from_utf8_lossy(&text))));
    let n = r.pick(&[3, 3, 4, 5, 12]);
    let vs = mesh(r, n, false, 0, &number).vertices;
    let res = guard(|| surface::save_bound_as_obj(&vs, "bound.obj"));
    let text = std::fs::read_to_string("bound.obj").unwrap_or_default();
    std::fs::remove_file("bound.obj").ok();
    let e = Ev::new("bound").raw("vs", &list(&vs, bits3));
    out.push(e.out(res, |e, v| e.s("err", &v.err().map(|x| x.to_string()).unwrap_or_default())).raw("lines", &lines(&text)));
}

fn lines(text: &str) -> String {
    let mut out = vec![];
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        let num = |s: &str| s.parse::<f64>().map(bits).unwrap_or("[]".into());
        let idx = |s: Option<&str>| s.and_then(|s| s.parse::<i64>().ok()).unwrap_or(-1).clamp(-1, 1 << 30);
        match w.first() {
            Some(&k) if k == "v" || k == "vn" => out.push(format!("[\"{}\",{}]", k, list(&w[1..], |s| num(s)))),
            Some(&"f") => {
                let vs: Vec<i64> = w[1..].iter().map(|s| idx(s.split('/').next())).collect();
                let ns: Vec<i64> = w[1..].iter().filter(|s| s.contains('/')).map(|s| idx(s.split('/').nth(2))).collect();
                out.push(format!("[\"f\",{},{}]", is(&vs), is(&ns)));
            }
            Some(&"l") => out.push(format!("[\"l\",{}]", is(&w[1..].iter().map(|s| idx(Some(s))).collect::<Vec<_>>()))),
            _ => {}
        }
    }
    format!("[{}]", out.join(","))
}

pub fn run(c: &mut Case) {
    let sizes = sizes(c);
    let r = &mut c.rng;
    let mut out = vec![Ev::new("model")];
    let mut model: Model<TriangleMesh> = Model::new();
    let saves = r.int(1, 2) as usize;
    for round in 0..saves {
        for &(nv, nn, nt) in &sizes {
            let m = mesh(r, nv, nn, nt, &number);
            out.push(face("face", &m));
            model.add_face(m);
        }
        let name = r.pick(&["m.obj", "other.obj", "x", "./\u{4e09}.obj", "a b.stl"]);
        if round == 0 && r.chance(1, 2) {
            // a longer file of the same name goes away
            std::fs::write(name, "v 9 9 9\n".repeat(400)).unwrap();
        }
        let res = guard(|| model.save_as_obj(name));
        let text = std::fs::read_to_string(name).unwrap_or_default();
        std::fs::remove_file(name).ok();
        out.push(Ev::new("save").out(res, |e, v| e.s("err", &v.err().map(|x| x.to_string()).unwrap_or_default())).raw("lines", &lines(&text)));
    }
    if r.chance(1, 8) {
        patches(r, &mut out);
    }
    if c.scn.is_none() && r.chance(1, 40) {
        out.push(huge(r));
    }
    if let Some(&(nv, nn, nt)) = sizes.first() {
        let m = mesh(r, nv, nn, nt, &number);
        let m = if r.chance(1, 2) { m } else { m.reverse_winding_direction() };
        let e = face("mesh", &m);
        let res = guard(|| m.save_as_obj("one.obj"));
        let text = std::fs::read_to_string("one.obj").unwrap_or_default();
        std::fs::remove_file("one.obj").ok();
        out.push(e.out(res, |e, v| e.s("err", &v.err().map(|x| x.to_string()).unwrap_or_default())).raw("lines", &lines(&text)));
        if r.chance(1, 4) {
            parts(r, &m, &mut out);
        }
    }
    for e in out {
        c.ev(e);
    }
}
