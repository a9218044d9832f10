//! Recording: JSON events written by hand, doubles exactly as (hi*2^27+lo)*2^exp.
use geom3d::{Float, Point2, Point3, Point4};

pub fn f64s(x: f64) -> String {
    if x.is_nan() {
        return "[0,0,99999]".into();
    }
    if x.is_infinite() {
        return if x > 0.0 { "[1,0,99998]".into() } else { "[-1,0,99998]".into() };
    }
    let bits = x.to_bits();
    let mut m = bits & ((1u64 << 52) - 1);
    let e = ((bits >> 52) & 0x7ff) as i64;
    let mut exp = -1074;
    if e > 0 {
        m |= 1 << 52;
        exp = e - 1075;
    }
    if m == 0 {
        return "[0,0,0]".into();
    }
    let tz = m.trailing_zeros();
    m >>= tz;
    exp += tz as i64;
    let s = if x < 0.0 { -1 } else { 1 };
    format!("[{},{},{}]", s * (m >> 27) as i64, s * (m & ((1 << 27) - 1)) as i64, exp)
}

pub fn list<T, F: Fn(&T) -> String>(xs: &[T], f: F) -> String {
    let mut s = String::from("[");
    for (i, x) in xs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&f(x));
    }
    s.push(']');
    s
}

pub fn fs(xs: &[Float]) -> String {
    list(xs, |x| f64s(*x))
}
pub fn is(xs: &[i64]) -> String {
    list(xs, |x| x.to_string())
}
pub fn us(xs: &[u32]) -> String {
    list(xs, |x| (*x).min(1 << 30).to_string())
}
pub fn v2(p: Point2) -> String {
    fs(&[p.x, p.y])
}
pub fn v3(p: Point3) -> String {
    fs(&[p.x, p.y, p.z])
}
pub fn v4(p: Point4) -> String {
    fs(&[p.x, p.y, p.z, p.w])
}
pub fn v3s(ps: &[Point3]) -> String {
    list(ps, |p| v3(*p))
}
pub fn v2s(ps: &[Point2]) -> String {
    list(ps, |p| v2(*p))
}
/// vertex indices, as triples
pub fn tris(t: &[u32]) -> String {
    let c: Vec<Vec<u32>> = t.chunks(3).map(|c| c.to_vec()).collect();
    list(&c, |c| us(c))
}
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => o.push('\''),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Ev(String);

impl Ev {
    pub fn new(op: &str) -> Ev {
        Ev(format!("{{\"op\":\"{}\"", op))
    }
    pub fn raw(mut self, k: &str, v: &str) -> Ev {
        self.0.push_str(&format!(",\"{}\":{}", k, v));
        self
    }
    pub fn n(self, k: &str, v: i64) -> Ev {
        self.raw(k, &v.to_string())
    }
    pub fn b(self, k: &str, v: bool) -> Ev {
        self.raw(k, if v { "true" } else { "false" })
    }
    pub fn s(self, k: &str, v: &str) -> Ev {
        self.raw(k, &esc(v))
    }
    pub fn f(self, k: &str, v: f64) -> Ev {
        self.raw(k, &f64s(v))
    }
    pub fn fs(self, k: &str, v: &[f64]) -> Ev {
        self.raw(k, &fs(v))
    }
    pub fn v2(self, k: &str, v: Point2) -> Ev {
        self.raw(k, &v2(v))
    }
    pub fn v3(self, k: &str, v: Point3) -> Ev {
        self.raw(k, &v3(v))
    }
    pub fn v3s(self, k: &str, v: &[Point3]) -> Ev {
        self.raw(k, &v3s(v))
    }
    pub fn v2s(self, k: &str, v: &[Point2]) -> Ev {
        self.raw(k, &v2s(v))
    }
    /// the outcome of a guarded call
    pub fn out<T>(self, r: Result<T, String>, f: impl FnOnce(Ev, T) -> Ev) -> Ev {
        match r {
            Ok(v) => f(self, v),
            Err(m) => self.s("panic", &m),
        }
    }
    pub fn done(mut self) -> String {
        self.0.push('}');
        self.0
    }
}

/// run code under test; a panic is an outcome
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}
