//! Finite spaces of texts, enumerated by index, shortest and simplest first.

use std::fmt::Write;
use std::sync::Arc;

pub type Text = Arc<dyn Fn(u64, &mut String) + Send + Sync>;

/// A finite, indexed space of texts.
#[derive(Clone)]
pub struct Space {
    pub name: String,
    pub bound: String,
    pub len: u64,
    pub text: Text,
}

impl Space {
    pub fn new(
        name: impl Into<String>,
        bound: impl Into<String>,
        len: u64,
        text: impl Fn(u64, &mut String) + Send + Sync + 'static,
    ) -> Space {
        Space { name: name.into(), bound: bound.into(), len, text: Arc::new(text) }
    }

    /// A space given by a list of texts.
    pub fn list(name: impl Into<String>, bound: impl Into<String>, texts: Vec<String>) -> Space {
        let len = texts.len() as u64;
        Space::new(name, bound, len, move |i, out| out.push_str(&texts[i as usize]))
    }
}

/// How many words of length at most `depth` there are over `k` letters.
pub fn words_up_to(k: u64, depth: u32) -> u64 {
    (0..=depth).map(|d| k.pow(d)).sum()
}

/// The `i`-th word over `k` letters, shortest first.
pub fn word(mut i: u64, k: u64, out: &mut Vec<usize>) {
    out.clear();
    let mut n = 0;
    while i >= k.pow(n) {
        i -= k.pow(n);
        n += 1;
    }
    for _ in 0..n {
        out.push((i % k) as usize);
        i /= k;
    }
    out.reverse();
}

/// Split an index into mixed-radix digits, the first digit varying slowest.
pub fn digits<const N: usize>(mut i: u64, radix: [u64; N]) -> [usize; N] {
    let mut result = [0; N];
    for k in (0..N).rev() {
        result[k] = (i % radix[k]) as usize;
        i /= radix[k];
    }
    result
}

pub fn product(radix: &[u64]) -> u64 {
    radix.iter().product()
}

/// One step of an OBJ history.
#[derive(Clone, Copy, PartialEq)]
pub enum Op {
    /// A vertex with this many components and fresh coordinates.
    V(u8),
    /// A texture vertex with this many components.
    T(u8),
    N,
    /// An element: keyword, number of indices, form (0 v, 1 v/t, 2 v//n,
    /// 3 v/t/n), relative indices or not.
    El(char, u8, u8, bool),
    /// An element at the edge of the valid range: keyword, number of indices,
    /// form and where it points to (see `edge`).
    Edge(char, u8, u8, u8),
    /// A line as it is.
    Raw(&'static str),
    /// An object with this name.
    Obj(&'static str),
    /// Four vertices, three texture vertices and two normals.
    Pre,
    /// An object with this name and `Pre`.
    ObjPre(&'static str),
}

/// What has been written so far.
#[derive(Default, Clone)]
pub struct Gen {
    total: [i64; 3],
    base: [i64; 3],
    elements: i64,
    coords: u64,
}

impl Gen {
    fn coords(&mut self, n: u8, out: &mut String) {
        for _ in 0..n {
            self.coords += 1;
            let _ = write!(out, " {}.1", self.coords);
        }
        out.push('\n');
    }

    pub fn emit(&mut self, op: Op, out: &mut String) {
        match op {
            Op::V(n) => {
                out.push('v');
                self.coords(n, out);
                self.total[0] += 1;
            }
            Op::T(n) => {
                out.push_str("vt");
                self.coords(n, out);
                self.total[1] += 1;
            }
            Op::N => {
                out.push_str("vn");
                self.coords(3, out);
                self.total[2] += 1;
            }
            Op::El(keyword, n, form, relative) => {
                out.push(keyword);
                for k in 0..n as i64 {
                    out.push(' ');
                    self.index(form, out, |kind, base, total| {
                        let count = (total - base).max(1);
                        let at = (self.elements + k + kind) % count;
                        if relative {
                            at - count
                        } else {
                            base + at + 1
                        }
                    });
                }
                out.push('\n');
                self.elements += 1;
            }
            Op::Edge(keyword, n, form, mode) => {
                out.push(keyword);
                for k in 0..n as i64 {
                    out.push(' ');
                    let mode = if k == 0 { mode } else { 1 };
                    self.index(form, out, |_, base, total| edge(mode, base, total));
                }
                out.push('\n');
                self.elements += 1;
            }
            Op::Raw(line) => {
                out.push_str(line);
                out.push('\n');
            }
            Op::Obj(name) => {
                out.push_str("o ");
                out.push_str(name);
                out.push('\n');
                self.base = self.total;
            }
            Op::Pre => {
                for _ in 0..4 {
                    self.emit(Op::V(3), out);
                }
                for _ in 0..3 {
                    self.emit(Op::T(2), out);
                }
                for _ in 0..2 {
                    self.emit(Op::N, out);
                }
            }
            Op::ObjPre(name) => {
                self.emit(Op::Obj(name), out);
                self.emit(Op::Pre, out);
            }
        }
    }

    fn index(&self, form: u8, out: &mut String, at: impl Fn(i64, i64, i64) -> i64) {
        let value = |kind: usize| at(kind as i64, self.base[kind], self.total[kind]);
        let _ = match form {
            0 => write!(out, "{}", value(0)),
            1 => write!(out, "{}/{}", value(0), value(1)),
            2 => write!(out, "{}//{}", value(0), value(2)),
            _ => write!(out, "{}/{}/{}", value(0), value(1), value(2)),
        };
    }
}

/// Indices at the edges of the range of an object: 0 first, 1 last, 2 first
/// relative, 3 last relative (all valid if there is an item); 4 last of the
/// object before, 5 one past the last, 6 relative to the last of the object
/// before, 7 the first of the file, 8 relative to the first of the file.
pub fn edge(mode: u8, base: i64, total: i64) -> i64 {
    match mode {
        0 => base + 1,
        1 => total,
        2 => base - total,
        3 => -1,
        4 => base,
        5 => total + 1,
        6 => base - total - 1,
        7 => 1,
        _ => -total,
    }
}

/// All histories over an alphabet up to a depth, after a fixed prefix.
pub fn histories(name: &str, prefix: &[Op], alphabet: &[Op], depth: u32, suffix: &[Op]) -> Space {
    let (prefix, alphabet, suffix) = (prefix.to_vec(), alphabet.to_vec(), suffix.to_vec());
    let k = alphabet.len() as u64;
    Space::new(
        name,
        format!("all statement sequences of length <= {} over {} statements", depth, k),
        words_up_to(k, depth),
        move |i, out| {
            let mut letters = Vec::new();
            word(i, k, &mut letters);
            let mut gen = Gen::default();
            for op in &prefix {
                gen.emit(*op, out);
            }
            for l in letters {
                gen.emit(alphabet[l], out);
            }
            for op in &suffix {
                gen.emit(*op, out);
            }
        },
    )
}

/// All words over an alphabet up to a depth, each repeated.
pub fn repeats(name: &str, prefix: &[Op], alphabet: &[Op], depth: u32, times: &[u32]) -> Space {
    let (prefix, alphabet, times) = (prefix.to_vec(), alphabet.to_vec(), times.to_vec());
    let k = alphabet.len() as u64;
    let words = words_up_to(k, depth);
    Space::new(
        name,
        format!("all statement sequences of length <= {} over {} statements, each repeated {:?} times", depth, k, times),
        words * times.len() as u64,
        move |i, out| {
            let mut letters = Vec::new();
            word(i % words, k, &mut letters);
            let mut gen = Gen::default();
            for op in &prefix {
                gen.emit(*op, out);
            }
            for _ in 0..times[(i / words) as usize] {
                for l in &letters {
                    gen.emit(alphabet[*l], out);
                }
            }
        },
    )
}

/// All words over a set of fragments up to a length.
pub fn fragments(name: &str, parts: &[&str], depth: u32) -> Space {
    let parts: Vec<String> = parts.iter().map(|p| p.to_string()).collect();
    let k = parts.len() as u64;
    Space::new(
        name,
        format!("all concatenations of at most {} of {:?}", depth, parts),
        words_up_to(k, depth),
        move |i, out| {
            let mut letters = Vec::new();
            word(i, k, &mut letters);
            for l in letters {
                out.push_str(&parts[l]);
            }
        },
    )
}

/// Every text of a space inserted at `@` in every one of these frames.
pub fn framed(name: &str, frames: &[&str], inner: Space) -> Space {
    let frames: Vec<String> = frames.iter().map(|p| p.to_string()).collect();
    let n = frames.len() as u64;
    let bound = format!("{}, in each of {} contexts", inner.bound, n);
    Space::new(name, bound, inner.len * n, move |i, out| {
        let mut text = String::new();
        (inner.text)(i / n, &mut text);
        out.push_str(&frames[(i % n) as usize].replace('@', &text));
    })
}
