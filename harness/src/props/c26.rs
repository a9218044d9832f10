//! C26: a save that reports success has written the whole file.
use super::c18::mesh;
use crate::gen::Rng;
use crate::rec::*;
use crate::Case;
use geom3d::curve::*;
use geom3d::points::*;
use geom3d::surface::*;
use geom3d::*;

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn getrlimit(resource: i32, limit: *mut [u64; 2]) -> i32;
    fn signal(number: i32, handler: usize) -> usize;
}
const FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;

/// run it on a "device" that takes only so many bytes per file; beyond that writing fails
fn with_room<T>(room: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        signal(SIGXFSZ, 1);
        let mut old = [0u64; 2];
        assert!(getrlimit(FSIZE, &mut old) == 0);
        assert!(setrlimit(FSIZE, &[room.min(old[1]), old[1]]) == 0);
        let result = f();
        assert!(setrlimit(FSIZE, &old) == 0);
        result
    }
}

type Save = Box<dyn Fn(&str) -> std::io::Result<()>>;

fn line(a: Point3, b: Point3) -> CurveSegment<Box<dyn Curve>> {
    CurveSegment {
        curve: Box::new(Line { origin: a, direction: b - a }) as Box<dyn Curve>,
        parameter_range: (0.0, 1.0),
        tolerance: 0.01,
        parameter_division: 4,
    }
}

fn faces(r: &mut Rng, sizes: &[usize]) -> Model<TriangleMesh> {
    let mut model = Model::new();
    for &n in sizes {
        let nn = r.chance(1, 3);
        model.add_face(mesh(r, n + 2, nn, n, &|r| r.coord()));
    }
    model
}

/// one of the ways to save something, with that many items
fn saving(r: &mut Rng, kind: usize, sizes: &[usize]) -> (&'static str, Save) {
    let n: usize = sizes.iter().sum();
    let points: Vec<Point3> = (0..n).map(|_| r.p3()).collect();
    match kind {
        0 => ("save_point_cloud", Box::new(move |f| save_point_cloud(&points, f))),
        1 => {
            let p: Vec<(Point3, Vec3)> = points.iter().map(|&p| (p, r.p3())).collect();
            ("save_point_cloud_with_normal", Box::new(move |f| save_point_cloud_with_normal(&p, f)))
        }
        2 => {
            let p: Vec<Point2> = points.iter().map(|p| p.truncate()).collect();
            ("save_points", Box::new(move |f| save_points(&p, f)))
        }
        3 => {
            let nn = r.chance(1, 2);
            let m = mesh(r, n + 2, nn, n, &|r| r.coord());
            ("TriangleMesh::save_as_obj", Box::new(move |f| m.save_as_obj(f)))
        }
        4 => {
            let m = faces(r, sizes);
            ("Model::save_as_obj", Box::new(move |f| m.save_as_obj(f)))
        }
        5 => {
            let m = faces(r, sizes);
            ("Model::save_as_stl", Box::new(move |f| m.save_as_stl(f)))
        }
        6 => {
            let mut m: Model<TriangleMesh> = Model::new();
            for &n in sizes {
                let segments = (0..n).map(|_| line(r.p3(), r.p3())).collect();
                m.add_curve(Polycurve { segments });
            }
            ("Model::save_as_svg", Box::new(move |f| m.save_as_svg(f, (210.0, 297.0))))
        }
        _ => {
            let mut p = points;
            p.push(Point3::X);
            p.push(Point3::Y);
            ("save_bound_as_obj", Box::new(move |f| save_bound_as_obj(&p, f)))
        }
    }
}

/// where the records of a file end
fn ends(kind: usize, b: &[u8]) -> Vec<usize> {
    if kind == 5 {
        let mut v = vec![0, 80];
        v.extend((84..=b.len()).step_by(50));
        v
    } else {
        let mut v = vec![0];
        v.extend((0..b.len()).filter(|&i| b[i] == b'\n').map(|i| i + 1));
        if v[v.len() - 1] != b.len() {
            v.push(b.len());
        }
        v
    }
}

fn content(e: Ev, path: &str) -> Ev {
    let b = std::fs::read(path);
    let there = b.is_ok();
    let b = b.unwrap_or_default();
    let sums: Vec<i64> = b
        .chunks(64)
        .map(|c| (c.iter().fold(0xcbf29ce484222325u64, |h, &x| (h ^ x as u64).wrapping_mul(0x100000001b3)) >> 34) as i64)
        .collect();
    e.b("there", there).n("len", b.len() as i64).raw("sums", &is(&sums))
}

fn error<T>(v: std::io::Result<T>) -> String {
    v.err().map(|x| format!("error {}", x)).unwrap_or_default()
}

pub fn run(c: &mut Case) {
    let scn = c.scn.clone();
    let idx = c.idx as usize;
    let r = &mut c.rng;
    let mut out = vec![];
    // a scenario of MCWriter: whether there is a count to patch, the room, the sizes of the records
    let (kind, sizes, place) = match scn {
        Some(s) => {
            let kind = if s[0] == 1 { 5 } else { [0, 1, 2, 3, 4, 6, 7][idx % 7] };
            let recs: Vec<i64> = s[3..].to_vec();
            let sizes: Vec<usize> = recs.iter().map(|&x| (x > 0) as usize).collect();
            // the record in which the room ends, and how far into it
            let mut left = s[1];
            let mut at = (recs.iter().filter(|x| **x > 0).count(), 0, left - recs.iter().sum::<i64>());
            let mut k = 0;
            for &x in recs.iter().filter(|x| **x > 0) {
                if left < x {
                    at = (k, left, x);
                    break;
                }
                left -= x;
                k += 1;
            }
            (kind, sizes, Some(at))
        }
        None => {
            let kind = r.below(8);
            let n = if r.chance(1, 6) { r.pick(&[70, 170, 400]) } else { r.int(0, 12) as usize };
            let parts = r.int(1, 3) as usize;
            let sizes = (0..parts).map(|k| if k == 0 { n } else { r.int(0, 4) as usize }).collect();
            (kind, sizes, None)
        }
    };
    let (what, save) = saving(r, kind, &sizes);
    let path = "out.file";
    std::fs::remove_file(path).ok();
    let res = guard(|| save(path));
    out.push(content(Ev::new("whole").s("what", what), path).out(res, |e, v| e.s("err", &error(v))));
    let b = std::fs::read(path).unwrap_or_default();
    std::fs::remove_file(path).ok();
    let ends = ends(kind, &b);
    let rooms: Vec<usize> = match place {
        Some((k, o, x)) => {
            let last = ends.len() - 1;
            // the records of the model are the last ones of the file, what comes before is its head
            let n = sizes.iter().sum::<usize>();
            let first = last.saturating_sub(n);
            if k >= n {
                vec![b.len() + (x.max(0) as usize), b.len()]
            } else {
                let (p, q) = (ends[(first + k).min(last)], ends[(first + k + 1).min(last)]);
                let inside = if o == 0 { 0 } else if o == x - 1 { (q - p).saturating_sub(1) } else { (q - p) / 2 };
                vec![p + inside, first + k]
            }
        }
        None => {
            let mut v: Vec<usize> = vec![0, b.len(), b.len().saturating_sub(1), b.len() + r.below(9), ends[r.below(ends.len())]];
            for _ in 0..6 {
                v.push(r.below(b.len() + 1));
            }
            // just before and after the usual sizes of buffers
            for k in [1024, 4096, 8192, 16384] {
                if b.len() > k && r.chance(1, 2) {
                    v.push(k - 1 + r.below(3));
                }
            }
            v
        }
    };
    for room in rooms {
        let older = r.chance(1, 4);
        if older {
            std::fs::write(path, vec![b'7'; b.len() + 100]).unwrap();
        }
        let res = with_room(room as u64, || guard(|| save(path)));
        out.push(content(Ev::new("save").s("what", what).n("room", room as i64).b("older", older), path).out(res, |e, v| e.s("err", &error(v))));
        // a save that failed does not stop the next one
        if r.chance(1, 6) {
            let res = guard(|| save(path));
            out.push(content(Ev::new("save").s("what", what).n("room", 1 << 30).b("older", true), path).out(res, |e, v| e.s("err", &error(v))));
        }
        std::fs::remove_file(path).ok();
    }
    if place.is_none() {
        std::fs::create_dir_all("folder").ok();
        let mut bad = vec![("a folder that does not exist", "nowhere/out.file"), ("a folder", "folder"), ("no name", ""), ("a path without a name", "folder/.."), ("the parent folder", "..")];
        if !b.is_empty() && std::path::Path::new("/dev/full").exists() {
            bad.push(("a full device", "/dev/full"));
        }
        for (dest, name) in bad {
            let res = guard(|| save(name));
            out.push(Ev::new("bad").s("what", what).s("dest", dest).out(res, |e, v| e.s("err", &error(v))));
        }
        for (from, name) in [("a file that does not exist", "nowhere.xyz"), ("a folder", "folder"), ("no name", "")] {
            let res = guard(|| load_point_cloud(name));
            out.push(Ev::new("load").s("what", "load_point_cloud").s("from", from).out(res, |e, v| e.s("err", &error(v))));
            let res = guard(|| geom3d::model::StepReader::read_model(name));
            out.push(Ev::new("load").s("what", "read_model").s("from", from).out(res, |e, v| e.s("err", &error(v))));
        }
    }
    for e in out {
        c.ev(e);
    }
}
