//! C22: geometry of STEP files.
use super::step::*;
use crate::rec::*;
use crate::Case;

pub fn run(c: &mut Case) {
    let r = &mut c.rng;
    let mut f = File::new();
    let (mut faces, mut curves): (Vec<(StepSurface, bool)>, Vec<Vec<StepCurve>>) = (vec![], vec![]);
    let mut ordered = vec![];
    let share = r.chance(1, 4);
    let many = r.chance(1, 12);
    for _ in 0..if many { r.int(4, 14) } else { r.int(0, 3) } {
        let s = if r.chance(1, 6) {
            StepSurface::Unsupported
        } else if share && !faces.is_empty() && r.chance(1, 2) {
            // another face on the same surface
            faces[r.below(faces.len())].0.clone()
        } else {
            StepSurface::random(r)
        };
        let sense = r.chance(1, 2);
        let id = f.surface(r, &s);
        let bounds = if r.chance(1, 4) {
            String::new()
        } else {
            let p = r.d3();
            let p = f.point(r, p);
            let v = f.add(r, format!("VERTEX_POINT('',@{}@)", p));
            let l = f.add(r, format!("VERTEX_LOOP('',@{}@)", v));
            format!("@{}@", f.new_entity(format!("FACE_BOUND('',@{}@,.T.)", l)))
        };
        ordered.push(f.new_entity(format!("ADVANCED_FACE('',({}),@{}@,{})", bounds, id, tf(sense))));
        faces.push((s, sense));
    }
    for _ in 0..r.int(0, 2) {
        let mut segs = vec![];
        let mut ids = vec![];
        for _ in 0..if many { r.int(4, 12) } else { r.int(1, 3) } {
            let k = if r.chance(1, 6) { StepCurve::Unsupported } else { StepCurve::random(r) };
            let id = f.curve(r, &k);
            let (a, b) = k.domain();
            let t = format!("TRIMMED_CURVE('',@{}@,(PARAMETER_VALUE({})),(PARAMETER_VALUE({})),.T.,.PARAMETER.)", id, real(r, a), real(r, b));
            let t = f.new_entity(t);
            ids.push(f.new_entity(format!("COMPOSITE_CURVE_SEGMENT(.CONTINUOUS.,.T.,@{}@)", t)));
            segs.push(k);
        }
        ordered.push(f.new_entity(format!("COMPOSITE_CURVE('',({}),.U.)", refs(&ids))));
        curves.push(segs);
    }
    let text = f.text(r, &ordered);
    let mut out = vec![Ev::new("file")
        .raw("faces", &list(&faces, |(s, t)| format!("{{\"s\":{},\"sense\":{}}}", s.json(), t)))
        .raw("curves", &list(&curves, |k| list(k, |s| s.json())))];
    let model = match read(&text, r) {
        Err(m) => {
            out.push(Ev::new("read").s("panic", &m));
            None
        }
        Ok(Err(m)) => {
            out.push(Ev::new("read").s("panic", &m.to_string()));
            None
        }
        Ok(Ok(m)) => {
            let sizes: Vec<i64> = m.curves.iter().map(|k| k.segments.len() as i64).collect();
            out.push(Ev::new("read").n("faces", m.faces.len() as i64).raw("curves", &is(&sizes)));
            Some(m)
        }
    };
    if let Some(m) = model {
        let seen: Vec<_> = faces.iter().filter(|(s, _)| !matches!(s, StepSurface::Unsupported)).collect();
        for (i, (s, _)) in seen.iter().enumerate().take(m.faces.len()) {
            let ((a, b), (c, d)) = s.domain();
            let g = &m.faces[i].surface;
            for k in 0..4 {
                let (u, v) = match k {
                    0 => (a, c),
                    1 => (b, d),
                    _ => (r.range(a, b), r.range(c, d)),
                };
                let res = guard(|| g.get_point(u, v));
                out.push(Ev::new("surface").n("i", i as i64 + 1).f("u", u).f("v", v).out(res, |e, p| e.v3("out", p)));
            }
            if let Some(p) = is_plane(g) {
                out.push(Ev::new("normal").n("i", i as i64 + 1).v3("out", p.normal).n("bounds", m.faces[i].bounds.len() as i64));
            }
        }
        for (i, segs) in curves.iter().enumerate().take(m.curves.len()) {
            let seen: Vec<_> = segs.iter().filter(|s| !matches!(s, StepCurve::Unsupported)).collect();
            for (j, s) in seen.iter().enumerate().take(m.curves[i].segments.len()) {
                let (a, b) = s.domain();
                let g = &m.curves[i].segments[j];
                for k in 0..4 {
                    let u = if k == 0 { a } else if k == 1 { b } else { r.range(a, b) };
                    let res = guard(|| curve_at(g, u));
                    out.push(Ev::new("curve").n("i", i as i64 + 1).n("j", j as i64 + 1).f("u", u).out(res, |e, p| e.v3("out", p)));
                }
            }
        }
    }
    for e in out {
        c.ev(e);
    }
}
