//! C19: STL export.
use super::c18::{mesh, sizes};
use crate::gen::Rng;
use crate::rec::*;
use crate::Case;
use geom3d::*;

fn number(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => r.range(-1.0, 1.0) * 10f64.powi(r.int(-30, 30) as i32),
        1 => r.pick(&[0.0, -0.0, 1e-42, 16777217.0, 0.1, 1e-50]),
        _ => r.coord(),
    }
}

/// more triangles than fit into a buffer, or than 16 bits count: triangle t has corners t, t+1, t+2 modulo nv
fn huge(r: &mut Rng) -> Ev {
    let nv = r.int(3, 9) as usize;
    let vertices: Vec<Point3> = (0..nv).map(|_| r.p3()).collect();
    let parts: Vec<usize> = (0..r.int(1, 3)).map(|_| r.pick(&[150, 163, 164, 165, 2000, 40_000, 66_000])).collect();
    let mut model: Model<TriangleMesh> = Model::new();
    let mut t = 0;
    for &n in &parts {
        let triangles = (t..t + n).flat_map(|t| (t..t + 3).map(|i| (i % nv) as u32)).collect();
        model.add_face(TriangleMesh { vertices: vertices.clone(), normals: vec![], triangles });
        t += n;
    }
    let res = guard(|| model.save_as_stl("huge.stl"));
    let b = std::fs::read("huge.stl").unwrap_or_default();
    std::fs::remove_file("huge.stl").ok();
    let f32at = |i: usize| if b.len() >= i + 4 { f32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as f64 } else { f64::NAN };
    let mut recs = vec![];
    for k in 0..60 {
        let at = match k {
            0 => 0,
            1 => t - 1,
            2..=8 if t > 166 => 160 + k,
            9..=12 if t > 65_540 => 65_525 + k,
            _ => r.below(t),
        };
        let i = 84 + 50 * at;
        let f: Vec<f64> = (3..12).map(|k| f32at(i + 4 * k)).collect();
        let attr = if b.len() >= i + 50 { b[i + 48] as i64 + 256 * b[i + 49] as i64 } else { -1 };
        recs.push(format!("{{\"t\":{},\"vs\":[{},{},{}],\"attr\":{}}}", at, fs(&f[0..3]), fs(&f[3..6]), fs(&f[6..9]), attr));
    }
    let count = if b.len() >= 84 { u32::from_le_bytes([b[80], b[81], b[82], b[83]]).min(1 << 30) as i64 } else { -1 };
    Ev::new("huge")
        .v3s("vs", &vertices)
        .n("n", t as i64)
        .n("len", b.len() as i64)
        .n("count", count)
        .raw("recs", &format!("[{}]", recs.join(",")))
        .out(res, |e, v| e.s("err", &v.err().map(|x| x.to_string()).unwrap_or_default()))
}

pub fn run(c: &mut Case) {
    let sizes = sizes(c);
    let r = &mut c.rng;
    let mut out = vec![Ev::new("model")];
    let mut model: Model<TriangleMesh> = Model::new();
    for _ in 0..r.int(1, 2) {
        for &(nv, nn, nt) in &sizes {
            let m = mesh(r, nv, nn, nt, &number);
            out.push(Ev::new("face").v3s("vs", &m.vertices).raw("ts", &tris(&m.triangles)));
            model.add_face(m);
        }
        let long = "l".repeat(120) + ".stl";
        let wide = "\u{e9}".repeat(60) + ".stl";
        std::fs::create_dir_all("deep/er").ok();
        let names = ["deep/er/m.stl", "./m.stl", "m.stl", "a.b.c.stl", "none", ".hidden", "with space.stl", "solid.stl", &long, &wide, "\u{4e09}\u{7ef4}.stl", "x.STL", "solid part with a name of exactly fifty-seven characters.s"];
        use std::os::unix::ffi::OsStrExt;
        // characters of several bytes across the end of the header
        let across = "n".repeat(r.int(50, 60) as usize) + r.pick(&["\u{e9}", "\u{20ac}", "\u{1d11e}"]).repeat(6).as_str() + ".stl";
        let name = if r.chance(1, 4) {
            std::ffi::OsStr::new(&across)
        } else if r.chance(1, 8) {
            std::ffi::OsStr::from_bytes(b"\xff\xfe no text \x80.stl")
        } else {
            std::ffi::OsStr::new(names[r.below(names.len())])
        };
        if r.chance(1, 3) {
            std::fs::write(name, vec![7u8; 4000]).unwrap();
        }
        let res = guard(|| model.save_as_stl(name));
        let b = std::fs::read(name).unwrap_or_default();
        std::fs::remove_file(name).ok();
        let u32at = |i: usize| if b.len() >= i + 4 { u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) } else { u32::MAX };
        let mut recs = vec![];
        let mut i = 84;
        while i + 50 <= b.len() {
            let f: Vec<f64> = (0..12).map(|k| f32::from_bits(u32at(i + 4 * k)) as f64).collect();
            let attr = b[i + 48] as i64 + 256 * b[i + 49] as i64;
            recs.push(format!("{{\"n\":{},\"vs\":[{},{},{}],\"attr\":{}}}", fs(&f[0..3]), fs(&f[3..6]), fs(&f[6..9]), fs(&f[9..12]), attr));
            i += 50;
        }
        out.push(
            Ev::new("save")
                .n("len", b.len() as i64)
                .n("count", u32at(80).min(1 << 30) as i64)
                .b("solid", b.starts_with(b"solid"))
                .raw("recs", &format!("[{}]", recs.join(",")))
                .out(res, |e, v| e.s("err", &v.err().map(|x| x.to_string()).unwrap_or_default())),
        );
    }
    if c.scn.is_none() && r.chance(1, 20) {
        out.push(huge(r));
    }
    for e in out {
        c.ev(e);
    }
}
