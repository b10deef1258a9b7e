//! Reference model of the OBJ and MTL formats as this library defines them.
//!
//! Deliberately boring and structured differently from the implementation: the
//! text is cut into lines and words first, statements are interpreted line by
//! line, and every element is annotated with the state in force when it is
//! stated (the implementation streams tokens with one token of lookahead and
//! records index ranges that it turns into entries at the end of an object).

use std::hash::Hasher;

/// Receives the abstract state graph explored by the model.
pub trait Log {
    /// A statement `stmt` led from abstract state `from` to `to`.
    fn step(&mut self, from: u64, stmt: u64, to: u64);
}

pub struct NoLog;
impl Log for NoLog {
    fn step(&mut self, _: u64, _: u64, _: u64) {}
}

/// A small, fast, deterministic hasher.
#[derive(Clone, Copy)]
pub struct Mix(pub u64);
impl Mix {
    pub fn new() -> Mix {
        Mix(0x9E37_79B9_7F4A_7C15)
    }
    #[inline]
    pub fn add(&mut self, x: u64) {
        let mut h = (self.0 ^ x).wrapping_mul(0xFF51_AFD7_ED55_8CCD);
        h ^= h >> 32;
        self.0 = h.wrapping_mul(0xC4CE_B9FE_1A85_EC53).rotate_left(23);
    }
    pub fn str(&mut self, s: &str) {
        for chunk in s.as_bytes().chunks(8) {
            let mut buf = [0u8; 8];
            buf[..chunk.len()].copy_from_slice(chunk);
            self.add(u64::from_le_bytes(buf));
        }
        self.add(s.len() as u64 ^ 0xABCD);
    }
}
impl Hasher for Mix {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.add(*b as u64);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.add(x)
    }
}

/// One line: its words, and whether a line terminator ends it.
pub struct Line<'a> {
    pub words: Vec<&'a str>,
    pub terminated: bool,
}

/// Cut a text into lines (ended by LF, CRLF or CR) and lines into words
/// (separated by space, tab or backslash; `#` starts a comment).
pub fn lines(text: &str) -> Vec<Line<'_>> {
    let mut result = Vec::new();
    let mut rest = text;
    loop {
        let end = rest.bytes().position(|b| b == b'\n' || b == b'\r');
        let line = &rest[..end.unwrap_or(rest.len())];
        let code = match line.find('#') {
            Some(i) => &line[..i],
            None => line,
        };
        let words = code
            .split(|c| c == ' ' || c == '\t' || c == '\\')
            .filter(|w| !w.is_empty())
            .collect();
        result.push(Line { words, terminated: end.is_some() });
        match end {
            None => return result,
            Some(i) if rest[i..].starts_with("\r\n") => rest = &rest[i + 2..],
            Some(i) => rest = &rest[i + 1..],
        }
    }
}

/// Read an integer word: an optional sign and decimal digits.
pub fn integer(word: &str, min: i128, max: i128) -> Option<i128> {
    let (negative, digits) = match word.as_bytes().first()? {
        b'-' => (true, &word[1..]),
        b'+' => (false, &word[1..]),
        _ => (false, word),
    };
    if digits.is_empty() {
        return None;
    }
    let mut value: i128 = 0;
    for b in digits.bytes() {
        if !b.is_ascii_digit() {
            return None;
        }
        value = (value * 10 + (b - b'0') as i128).min(1 << 100);
    }
    if negative {
        value = -value;
    }
    if value < min || value > max {
        return None;
    }
    Some(value)
}

pub fn signed(word: &str) -> Option<i128> {
    integer(word, i64::MIN as i128, i64::MAX as i128)
}

/// An unsigned integer word (a minus sign is never accepted).
pub fn unsigned(word: &str) -> Option<u64> {
    if word.starts_with('-') {
        return None;
    }
    integer(word, 0, u64::MAX as i128).map(|v| v as u64)
}

pub fn float(word: &str) -> Option<f64> {
    word.parse::<f64>().ok()
}

// Kinds of faults in OBJ files, as a set.
pub const EOF: u32 = 1;
pub const TAG: u32 = 2;
pub const FLOAT: u32 = 4;
pub const INT: u32 = 8;
pub const VTN: u32 = 16;
pub const OOR: u32 = 32;
pub const FACE3: u32 = 64;
pub const FORM: u32 = 128;
pub const INVALID: u32 = 256;
pub const PLF: u32 = 512;
pub const SGNAME: u32 = 1024;
pub const SGNONE: u32 = 2048;
pub const MTLNAME: u32 = 4096;
// Kinds of faults in MTL files (with EOF, TAG, FLOAT and INT from above).
pub const END: u32 = 8192;
pub const ILLUM: u32 = 16384;
pub const MATERIAL: u32 = 32768;

/// A rejected text: the line of the first faulty statement and its faults.
#[derive(Debug, Clone, PartialEq)]
pub struct MErr {
    pub line: usize,
    pub kinds: u32,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Ix {
    pub v: usize,
    pub t: Option<usize>,
    pub n: Option<usize>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Shape {
    P(Ix),
    L(Ix, Ix),
    F(Ix, Ix, Ix),
}

/// An element with everything in force when it was stated.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Elem {
    pub shape: Shape,
    /// The groups it is in: a range of positions in the group list.
    pub groups: (usize, usize),
    /// The position of its smoothing group in the smoothing group list.
    pub smooth: usize,
    /// How many `usemtl` statements of the object precede it.
    pub run: usize,
}

#[derive(Debug, Clone, Default)]
pub struct Obj<'a> {
    pub name: &'a str,
    pub v: Vec<[f64; 4]>,
    pub vt: Vec<[f64; 3]>,
    pub vn: Vec<[f64; 3]>,
    pub groups: Vec<&'a str>,
    pub active: (usize, usize),
    pub smooth: Vec<usize>,
    pub materials: Vec<&'a str>,
    pub elems: Vec<Elem>,
}

impl<'a> Obj<'a> {
    /// The runs of elements by material: (material, first element, end).
    pub fn geometries(&self) -> Vec<(Option<&'a str>, usize, usize)> {
        let mut result: Vec<(Option<&'a str>, usize, usize)> = Vec::new();
        let mut last = usize::MAX;
        for (i, e) in self.elems.iter().enumerate() {
            if e.run == last {
                result.last_mut().unwrap().2 = i + 1;
            } else {
                let material = if e.run == 0 { None } else { Some(self.materials[e.run - 1]) };
                result.push((material, i, i + 1));
                last = e.run;
            }
        }
        result
    }
}

#[derive(Debug, Clone, Default)]
pub struct Set<'a> {
    pub libs: Vec<&'a str>,
    pub objs: Vec<Obj<'a>>,
}

/// How many vertices, texture vertices and normals earlier objects have.
#[derive(Clone, Copy, Default)]
struct Base {
    v: usize,
    t: usize,
    n: usize,
}

/// Resolve a file index, given how many items precede the object and how many
/// the object has defined so far.
fn resolve(word: &str, base: usize, count: usize, faults: &mut u32) -> usize {
    let Some(k) = signed(word) else {
        *faults |= INT;
        return 0;
    };
    let (base, total) = (base as i128, (base + count) as i128);
    // The number of the item in the file, counting from 1.
    let number = if k < 0 { total + 1 + k } else { k };
    if k == 0 || number <= base || number > total {
        *faults |= OOR;
        return 0;
    }
    (number - base - 1) as usize
}

fn index(word: &str, base: Base, obj: &Obj, faults: &mut u32) -> Ix {
    let fields: Vec<&str> = word.split('/').collect();
    let mut ix = Ix { v: 0, t: None, n: None };
    if fields[0].is_empty() || fields.len() > 3 {
        *faults |= VTN;
    }
    if !fields[0].is_empty() {
        ix.v = resolve(fields[0], base.v, obj.v.len(), faults);
    }
    if fields.len() > 1 && !fields[1].is_empty() {
        ix.t = Some(resolve(fields[1], base.t, obj.vt.len(), faults));
    }
    if fields.len() > 2 && !fields[2].is_empty() {
        ix.n = Some(resolve(fields[2], base.n, obj.vn.len(), faults));
    }
    ix
}

fn same_form(ixs: &[Ix]) -> bool {
    ixs.iter()
        .all(|i| i.t.is_some() == ixs[0].t.is_some() && i.n.is_some() == ixs[0].n.is_some())
}

/// The abstract state of an OBJ history: everything that later statements
/// depend on, without coordinates and without the elements already stated.
fn obj_state(set: &Set, base: Base, cur: Option<&Obj>) -> u64 {
    let mut h = Mix::new();
    h.add(set.objs.len() as u64);
    h.add(((base.v as u64) << 40) ^ ((base.t as u64) << 20) ^ base.n as u64);
    match cur {
        None => h.add(set.libs.len() as u64),
        Some(o) => {
            h.add(((o.v.len() as u64) << 40) ^ ((o.vt.len() as u64) << 20) ^ o.vn.len() as u64);
            h.add(((o.active.0 as u64) << 32) ^ o.active.1 as u64);
            for g in &o.groups[o.active.0..o.active.1] {
                h.str(g);
            }
            h.add(o.smooth.last().copied().unwrap_or(usize::MAX) as u64);
            match o.materials.last() {
                Some(m) => h.str(m),
                None => h.add(7),
            }
            let fresh = match o.elems.last() {
                None => 0,
                Some(e) => {
                    1 + (e.groups == o.active) as u64 * 2
                        + (e.smooth + 1 == o.smooth.len()) as u64 * 4
                        + (e.run == o.materials.len()) as u64 * 8
                }
            };
            h.add(fresh);
        }
    }
    h.0
}

fn stmt_hash(words: &[&str]) -> u64 {
    let mut h = Mix::new();
    h.str(words[0]);
    match words[0] {
        "v" | "vt" | "vn" => h.add(words.len() as u64),
        _ => words[1..].iter().for_each(|w| h.str(w)),
    }
    h.0
}

/// Interpret an OBJ text.
pub fn obj<'a>(text: &'a str, log: &mut dyn Log) -> Result<Set<'a>, MErr> {
    let lines = lines(text);
    let mut set = Set::default();
    let mut base = Base::default();
    let mut cur: Option<Obj<'a>> = None;
    let mut state = obj_state(&set, base, None);

    for (number, line) in lines.iter().enumerate() {
        let words = &line.words;
        let fail = |kinds: u32| Err(MErr { line: number + 1, kinds });
        // The fault of a missing operand: at the end of the input, or of a line.
        let missing = |kind: u32| if line.terminated { kind } else { EOF };
        let mut at = 0;
        while at < words.len() {
            let start = at;
            let keyword = words[at];
            at += 1;
            let rest = &words[at..];
            if keyword == "mtllib" && cur.is_none() {
                set.libs.extend(rest);
                at = words.len();
            } else if keyword == "o" {
                if let Some(done) = cur.take() {
                    base.v += done.v.len();
                    base.t += done.vt.len();
                    base.n += done.vn.len();
                    set.objs.push(done);
                }
                match rest.len() {
                    0 => return fail(missing(INVALID)),
                    1 if line.terminated => {}
                    1 => return fail(EOF),
                    _ => return fail(TAG),
                }
                at += 1;
                cur = Some(Obj { name: rest[0], ..Obj::default() });
            } else {
                let o = cur.get_or_insert_with(Obj::default);
                match keyword {
                    "v" | "vn" => {
                        let mut c = [0.0; 4];
                        for i in 0..3 {
                            match rest.get(i) {
                                None => return fail(missing(FLOAT)),
                                Some(w) => match float(w) {
                                    None => return fail(FLOAT),
                                    Some(x) => c[i] = x,
                                },
                            }
                        }
                        at += 3;
                        if keyword == "vn" {
                            o.vn.push([c[0], c[1], c[2]]);
                        } else {
                            c[3] = 1.0;
                            if let Some(x) = rest.get(3).and_then(|w| float(w)) {
                                c[3] = x;
                                at += 1;
                            }
                            o.v.push(c);
                        }
                    }
                    "vt" => {
                        let mut c = [0.0; 3];
                        match rest.get(0) {
                            None => return fail(missing(FLOAT)),
                            Some(w) => match float(w) {
                                None => return fail(FLOAT),
                                Some(x) => c[0] = x,
                            },
                        }
                        at += 1;
                        for i in 1..3 {
                            match rest.get(i).and_then(|w| float(w)) {
                                None => break,
                                Some(x) => c[i] = x,
                            }
                            at += 1;
                        }
                        o.vt.push(c);
                    }
                    "g" => {
                        let first = o.groups.len();
                        o.groups.extend(rest);
                        if rest.is_empty() {
                            o.groups.push("default");
                        }
                        o.active = (first, o.groups.len());
                        at = words.len();
                    }
                    "s" => {
                        let Some(w) = rest.get(0) else { return fail(SGNONE) };
                        if *w == "off" {
                            o.smooth.push(0);
                        } else if let Some(n) = unsigned(w) {
                            o.smooth.push(n as usize);
                        } else {
                            return fail(SGNAME);
                        }
                        at += 1;
                    }
                    "usemtl" => {
                        let Some(w) = rest.get(0) else { return fail(MTLNAME) };
                        o.materials.push(w);
                        at += 1;
                    }
                    "p" | "l" | "f" => {
                        let mut faults = 0;
                        let ixs: Vec<Ix> = if keyword == "p" {
                            rest.iter()
                                .map(|w| Ix { v: resolve(w, base.v, o.v.len(), &mut faults), t: None, n: None })
                                .collect()
                        } else {
                            rest.iter().map(|w| index(w, base, o, &mut faults)).collect()
                        };
                        match keyword {
                            "p" if ixs.is_empty() => faults |= missing(INT),
                            "l" if ixs.len() < 2 => faults |= missing(INT),
                            "f" if ixs.len() < 3 => faults |= FACE3,
                            _ => {}
                        }
                        if !same_form(&ixs) {
                            faults |= FORM;
                        }
                        if faults != 0 {
                            return fail(faults);
                        }
                        at = words.len();
                        if o.groups.is_empty() {
                            o.groups.push("default");
                            o.active = (0, 1);
                        }
                        if o.smooth.is_empty() {
                            o.smooth.push(0);
                        }
                        let (groups, smooth, run) = (o.active, o.smooth.len() - 1, o.materials.len());
                        let mut put = |shape| o.elems.push(Elem { shape, groups, smooth, run });
                        match keyword {
                            "p" => ixs.iter().for_each(|&i| put(Shape::P(i))),
                            "l" => ixs.windows(2).for_each(|w| put(Shape::L(w[0], w[1]))),
                            _ => ixs[1..].windows(2).for_each(|w| put(Shape::F(ixs[0], w[0], w[1]))),
                        }
                    }
                    _ => return fail(INVALID),
                }
            }
            let next = obj_state(&set, base, cur.as_ref());
            log.step(state, stmt_hash(&words[start..at]), next);
            state = next;
        }
    }
    set.objs.extend(cur);
    Ok(set)
}

pub const MAPS: [(&str, &str); 10] = [
    ("map_Ka", "map_ambient"),
    ("map_Kd", "map_diffuse"),
    ("map_Ks", "map_specular"),
    ("map_Ke", "map_emissive"),
    ("map_Ns", "map_specular_exponent"),
    ("bump", "map_bump"),
    ("disp", "map_displacement"),
    ("map_d", "map_dissolve"),
    ("decal", "map_decal"),
    ("map_Bump", "map_bump"),
];

/// The slot of a map keyword in `Mat::maps`.
fn map_slot(keyword: &str) -> Option<usize> {
    if keyword == "map_Bump" {
        return Some(5);
    }
    MAPS.iter().position(|m| m.0 == keyword)
}

#[derive(Debug, Clone)]
pub struct Mat<'a> {
    pub name: &'a str,
    /// Ka, Kd, Ks, Ke
    pub colors: [[f64; 3]; 4],
    pub ns: f64,
    pub d: f64,
    pub ni: Option<f64>,
    pub illum: u64,
    pub maps: [Option<&'a str>; 9],
}

impl<'a> Mat<'a> {
    fn new(name: &'a str) -> Mat<'a> {
        Mat { name, colors: [[0.0; 3]; 4], ns: 0.0, d: 1.0, ni: None, illum: 2, maps: [None; 9] }
    }
}

/// The abstract state of an MTL history: which properties of the current
/// material have been stated, and how many materials there are.
fn mtl_state(mats: &[Mat]) -> u64 {
    let mut h = Mix::new();
    h.add(mats.len() as u64);
    if let Some(m) = mats.last() {
        for c in &m.colors {
            h.add((c != &[0.0; 3]) as u64);
        }
        h.add((m.ns != 0.0) as u64 + 2 * (m.d != 1.0) as u64 + 4 * m.ni.is_some() as u64 + 8 * m.illum);
        for x in &m.maps {
            h.add(x.is_some() as u64);
        }
    }
    h.0
}

/// Interpret an MTL text.
pub fn mtl<'a>(text: &'a str, log: &mut dyn Log) -> Result<Vec<Mat<'a>>, MErr> {
    let lines = lines(text);
    let mut mats: Vec<Mat<'a>> = Vec::new();
    let mut state = mtl_state(&mats);
    for (number, line) in lines.iter().enumerate() {
        let words = &line.words;
        let fail = |kinds: u32| Err(MErr { line: number + 1, kinds });
        let missing = |kind: u32| if line.terminated { kind } else { EOF };
        let mut at = 0;
        while at < words.len() {
            let keyword = words[at];
            at += 1;
            let rest = &words[at..];
            let numbers = |count: usize| -> Result<[f64; 3], MErr> {
                let mut c = [0.0; 3];
                for i in 0..count {
                    match rest.get(i) {
                        None => return Err(MErr { line: number + 1, kinds: missing(FLOAT) }),
                        Some(w) => match float(w) {
                            None => return Err(MErr { line: number + 1, kinds: FLOAT }),
                            Some(x) => c[i] = x,
                        },
                    }
                }
                Ok(c)
            };
            if keyword == "newmtl" {
                let Some(name) = rest.get(0) else { return fail(missing(MATERIAL)) };
                mats.push(Mat::new(name));
                at += 1;
            } else {
                let Some(m) = mats.last_mut() else { return fail(END) };
                match keyword {
                    "Ka" | "Kd" | "Ks" | "Ke" => {
                        let slot = ["Ka", "Kd", "Ks", "Ke"].iter().position(|k| *k == keyword).unwrap();
                        m.colors[slot] = numbers(3)?;
                        at += 3;
                    }
                    "d" => {
                        m.d = numbers(1)?[0];
                        at += 1;
                    }
                    "Ns" => {
                        m.ns = numbers(1)?[0];
                        at += 1;
                    }
                    "Ni" => {
                        m.ni = Some(numbers(1)?[0]);
                        at += 1;
                    }
                    "illum" => {
                        let Some(w) = rest.get(0) else { return fail(missing(INT)) };
                        match unsigned(w) {
                            None => return fail(INT),
                            Some(n) if n <= 2 => m.illum = n,
                            Some(_) => return fail(ILLUM),
                        }
                        at += 1;
                    }
                    _ => match map_slot(keyword) {
                        None => return fail(MATERIAL),
                        Some(slot) => {
                            let Some(name) = rest.get(0) else { return fail(missing(MATERIAL)) };
                            m.maps[slot] = Some(name);
                            at += 1;
                        }
                    },
                }
            }
            let next = mtl_state(&mats);
            let mut h = Mix::new();
            h.str(keyword);
            log.step(state, h.0, next);
            state = next;
        }
    }
    Ok(mats)
}
