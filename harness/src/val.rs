//! Canonical value tree: both the reference decoder and the observer of the
//! code under test produce it; `diff` compares two of them.
use std::fmt::Write;

/// Bytes together with where they sit in the input (None: not inside the input).
#[derive(Clone, Debug)]
pub struct Span {
    pub off: Option<usize>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub enum V {
    /// any number
    N(i128),
    /// text or payload bytes
    S(Span),
    /// a named enumerant
    T(&'static str),
    /// an unknown enumerant with its stored code
    U(i128),
    L(Vec<V>),
    M(Vec<(&'static str, V)>),
    None,
    /// a contained error
    Bad,
    /// not specified: compares equal with anything
    Any,
}

impl V {
    pub fn get(&self, k: &str) -> &V {
        if let V::M(m) = self {
            for (n, v) in m {
                if *n == k {
                    return v;
                }
            }
        }
        &V::None
    }
    pub fn list(&self) -> &[V] {
        if let V::L(l) = self {
            l
        } else {
            &[]
        }
    }
    pub fn n(&self) -> i128 {
        match self {
            V::N(n) | V::U(n) => *n,
            _ => -1,
        }
    }
    pub fn render(&self) -> String {
        let mut s = String::new();
        self.fmt_into(&mut s, 400);
        s
    }
    fn fmt_into(&self, s: &mut String, max: usize) {
        if s.len() > max {
            return;
        }
        match self {
            V::N(n) => {
                let _ = write!(s, "{n}");
            }
            V::S(b) => {
                let show = &b.data[..b.data.len().min(24)];
                let _ = write!(s, "bytes[{}]{:02x?}", b.data.len(), show);
            }
            V::T(t) => s.push_str(t),
            V::U(n) => {
                let _ = write!(s, "Unknown({n})");
            }
            V::L(l) => {
                s.push('[');
                for x in l {
                    x.fmt_into(s, max);
                    s.push(',');
                }
                s.push(']');
            }
            V::M(m) => {
                s.push('{');
                for (k, x) in m {
                    let _ = write!(s, "{k}:");
                    x.fmt_into(s, max);
                    s.push(',');
                }
                s.push('}');
            }
            V::None => s.push_str("None"),
            V::Bad => s.push_str("<error>"),
            V::Any => s.push_str("<unspecified>"),
        }
    }
    /// content digest (placement of spans not included)
    pub fn digest(&self, h: &mut u64) {
        use crate::rng::{hash_bytes, mix};
        *h = match self {
            V::N(n) => mix(*h, mix(1, (*n as u64) ^ ((*n >> 64) as u64).rotate_left(7))),
            V::S(b) => mix(*h, mix(2, hash_bytes(&b.data))),
            V::T(t) => mix(*h, mix(3, hash_bytes(t.as_bytes()))),
            V::U(n) => mix(*h, mix(4, *n as u64)),
            V::L(l) => {
                let mut g = mix(*h, mix(5, l.len() as u64));
                for x in l {
                    x.digest(&mut g);
                }
                g
            }
            V::M(m) => {
                let mut g = mix(*h, mix(6, m.len() as u64));
                for (k, x) in m {
                    g = mix(g, hash_bytes(k.as_bytes()));
                    x.digest(&mut g);
                }
                g
            }
            V::None => mix(*h, 7),
            V::Bad => mix(*h, 8),
            V::Any => mix(*h, 9),
        };
    }
    /// number of leaves
    pub fn leaves(&self) -> usize {
        match self {
            V::L(l) => l.iter().map(|x| x.leaves()).sum::<usize>() + 1,
            V::M(m) => m.iter().map(|(_, x)| x.leaves()).sum(),
            _ => 1,
        }
    }
}

pub fn s(off: usize, data: &[u8]) -> V {
    V::S(Span { off: Some(off), data: data.to_vec() })
}
pub fn n<T: Into<i128>>(x: T) -> V {
    V::N(x.into())
}
pub fn b(x: bool) -> V {
    V::N(x as i128)
}

#[derive(Clone, Copy)]
pub struct Cmp<'a> {
    /// keys not compared
    pub skip: &'a [&'static str],
    /// compare span contents
    pub content: bool,
    /// compare span placement
    pub place: bool,
}
pub const CONTENT: Cmp<'static> = Cmp { skip: &[], content: true, place: false };

/// First difference between expectation and observation, with its path.
pub fn diff(exp: &V, got: &V, c: Cmp<'_>) -> Option<String> {
    let mut path = String::new();
    go(exp, got, c, &mut path)
}

fn go(e: &V, g: &V, c: Cmp<'_>, path: &mut String) -> Option<String> {
    let bad = |path: &str| Some(format!("at {}: expected {} got {}", path, e.render(), g.render()));
    match (e, g) {
        (V::Any, _) | (_, V::Any) => None,
        (V::N(a), V::N(b)) | (V::U(a), V::U(b)) if a == b => None,
        (V::T(a), V::T(b)) if a == b => None,
        (V::None, V::None) | (V::Bad, V::Bad) => None,
        (V::S(a), V::S(b)) => {
            if c.content && a.data != b.data {
                return bad(path);
            }
            if c.place && (a.data.len() != b.data.len() || (!a.data.is_empty() && a.off != b.off)) {
                return Some(format!(
                    "at {}: expected to borrow input[{:?}..+{}], got {} (len {})",
                    path,
                    a.off.unwrap_or(0),
                    a.data.len(),
                    match b.off {
                        Some(o) => format!("input offset {o}"),
                        None => "memory outside the input".to_string(),
                    },
                    b.data.len()
                ));
            }
            None
        }
        (V::L(a), V::L(b)) => {
            if a.len() != b.len() {
                return Some(format!("at {}: expected {} entries got {}: {} vs {}", path, a.len(), b.len(), e.render(), g.render()));
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                let l = path.len();
                let _ = write!(path, "[{i}]");
                if let Some(d) = go(x, y, c, path) {
                    return Some(d);
                }
                path.truncate(l);
            }
            None
        }
        (V::M(a), V::M(b)) => {
            if a.len() != b.len() {
                return bad(path);
            }
            for ((k, x), (k2, y)) in a.iter().zip(b) {
                if k != k2 {
                    return Some(format!("at {path}: harness key mismatch {k}/{k2}"));
                }
                if c.skip.contains(k) {
                    continue;
                }
                let l = path.len();
                let _ = write!(path, ".{k}");
                if let Some(d) = go(x, y, c, path) {
                    return Some(d);
                }
                path.truncate(l);
            }
            None
        }
        _ => bad(path),
    }
}
