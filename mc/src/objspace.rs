//! Spaces of OBJ texts.

use crate::space::*;
use std::fmt::Write;

const F3: Op = Op::El('f', 3, 3, false);
const F3R: Op = Op::El('f', 3, 2, true);
const F4: Op = Op::El('f', 4, 0, true);
const F5: Op = Op::El('f', 5, 1, false);
const P1: Op = Op::El('p', 1, 0, false);
const P2: Op = Op::El('p', 2, 0, true);
const L2: Op = Op::El('l', 2, 0, false);
const L3: Op = Op::El('l', 3, 1, true);

/// Every kind of statement.
pub const ALL: [Op; 26] = [
    F3,
    Op::Raw("g a"),
    Op::Raw("usemtl m"),
    Op::Raw("s 1"),
    Op::ObjPre("x"),
    Op::V(3),
    Op::T(2),
    Op::N,
    F4,
    P2,
    L3,
    Op::Raw("g b c"),
    Op::Raw("g"),
    Op::Raw("s off"),
    Op::Raw("s 2"),
    Op::Raw("usemtl n"),
    Op::Obj("y"),
    Op::V(4),
    Op::T(1),
    Op::T(3),
    F3R,
    F5,
    P1,
    L2,
    Op::Raw(""),
    Op::Raw("# f 1 2 3"),
];

/// The statements that move elements between groups, smoothing groups,
/// materials and objects.
pub const STATE: [Op; 12] = [
    F3,
    Op::Raw("g a"),
    Op::Raw("usemtl m"),
    Op::Raw("s 1"),
    Op::ObjPre("x"),
    F4,
    Op::Raw("g b c"),
    Op::Raw("g"),
    Op::Raw("s off"),
    Op::Raw("usemtl n"),
    P2,
    Op::V(3),
];

pub fn all_statements(depth: u32) -> Space {
    histories("histories/all", &[Op::Pre], &ALL, depth, &[])
}

pub fn all_statements_named(depth: u32) -> Space {
    histories("histories/all-in-named-object", &[Op::Raw("mtllib z"), Op::ObjPre("w")], &ALL, depth, &[F3])
}

pub fn no_prefix(depth: u32) -> Space {
    histories("histories/from-nothing", &[], &ALL, depth, &[])
}

pub fn grouping_state(depth: u32) -> Space {
    histories("histories/state", &[Op::Pre], &STATE, depth, &[])
}

pub fn state_repeats(depth: u32, times: &[u32]) -> Space {
    repeats("histories/repeated", &[Op::Pre], &STATE, depth, times)
}

pub fn vertices(depth: u32) -> Space {
    let ops = [
        Op::V(3),
        Op::T(2),
        Op::N,
        Op::V(4),
        Op::T(1),
        Op::T(3),
        Op::Raw("v 1 1 1"),
        Op::Raw("vt 0"),
        Op::Raw("vn 0 0 1"),
        Op::Obj("x"),
        Op::Raw("p -1"),
    ];
    histories("histories/vertex-data", &[], &ops, depth, &[])
}

pub fn index_edges(depth: u32) -> Space {
    let ops = [
        Op::V(3),
        Op::T(2),
        Op::N,
        Op::Obj("x"),
        Op::Edge('f', 3, 3, 0),
        Op::Edge('f', 3, 0, 2),
        Op::Edge('l', 2, 1, 1),
        Op::Edge('f', 3, 2, 3),
        Op::Edge('p', 1, 0, 2),
        Op::Edge('f', 3, 3, 6),
        Op::Edge('f', 3, 3, 4),
        Op::Edge('l', 2, 1, 5),
    ];
    histories("histories/index-edges", &[], &ops, depth, &[])
}

pub fn groups(depth: u32) -> Space {
    let ops = [F3, Op::Raw("g a"), Op::Raw("g b c"), Op::Raw("g"), F4, Op::ObjPre("x"), Op::Raw("g a a"), Op::Raw("g default")];
    histories("histories/groups", &[Op::Pre], &ops, depth, &[])
}

pub fn smoothing(depth: u32) -> Space {
    let ops = [F3, Op::Raw("s 1"), Op::Raw("s off"), Op::Raw("s 2"), F4, Op::ObjPre("x"), Op::Raw("s 0"), Op::Raw("g a")];
    histories("histories/smoothing", &[Op::Pre], &ops, depth, &[])
}

pub fn materials(depth: u32) -> Space {
    let ops = [F3, Op::Raw("usemtl m"), Op::Raw("usemtl n"), Op::ObjPre("x"), F4, P1, Op::Raw("g a"), Op::V(3)];
    histories("histories/materials", &[Op::Pre], &ops, depth, &[])
}

pub fn objects(depth: u32) -> Space {
    let ops = [
        Op::Obj("x"),
        Op::V(3),
        F3,
        Op::Obj("y"),
        Op::ObjPre("x"),
        Op::Raw("g a"),
        Op::Raw("s 1"),
        Op::Raw("usemtl m"),
        Op::Raw(""),
        Op::Raw("p -1"),
    ];
    histories("histories/objects", &[], &ops, depth, &[])
}

pub fn libraries(depth: u32) -> Space {
    let ops = [
        Op::Raw("mtllib a"),
        Op::Raw("mtllib a b"),
        Op::Raw("mtllib"),
        Op::Raw(""),
        Op::Raw("# c"),
        Op::Raw("o x"),
        Op::V(3),
        Op::Raw("mtllib c.mtl d a"),
        Op::Raw("g a"),
        Op::Raw("usemtl a"),
        Op::Raw("s 1"),
    ];
    histories("histories/libraries", &[], &ops, depth, &[])
}

/// The same texts in other layouts.
pub const LAYOUTS: [(&str, &str, &str, &str, bool); 9] = [
    // name, gap, before the end of a line, end of a line, keep the last end
    ("crlf", " ", "", "\r\n", true),
    ("cr", " ", "", "\r", true),
    ("tabs", "\t", "\t", "\n", true),
    ("backslashes", " \\ ", " \\", "\n", true),
    ("comments", " ", " # f 1 2 3", "\n", true),
    ("tight-comments", " ", "#o x", "\n", true),
    ("blank-lines", "  ", "", "\n\n\n", true),
    ("lf-cr", " ", " ", "\n\r\n  # c\r", true),
    ("unterminated", " ", "", "\n", false),
];

pub fn relayout(space: Space) -> Space {
    let n = LAYOUTS.len() as u64;
    let inner = space.text.clone();
    Space::new(
        format!("{}/layouts", space.name),
        format!("{}, in each of {} layouts", space.bound, n),
        space.len * n,
        move |i, out| {
            let (_, gap, trail, end, keep) = LAYOUTS[(i % n) as usize];
            let mut text = String::new();
            inner(i / n, &mut text);
            for c in text.chars() {
                match c {
                    ' ' => out.push_str(gap),
                    '\n' => {
                        out.push_str(trail);
                        out.push_str(end);
                    }
                    c => out.push(c),
                }
            }
            if !keep && out.ends_with(end) {
                out.truncate(out.len() - end.len());
            }
        },
    )
}

/// Counts worth trying: everything small, and around powers of two and ten.
pub fn counts(dense: usize, top: u32) -> Vec<usize> {
    let mut result: Vec<usize> = (0..=dense).collect();
    for k in 1..=top {
        let p = 1usize << k;
        result.extend([p - 1, p, p + 1]);
    }
    for p in [1000, 10_000, 100_000] {
        if p <= 1 << top {
            result.extend([p - 1, p, p + 1]);
        }
    }
    result.sort();
    result.dedup();
    result
}

fn rep(n: usize, mut f: impl FnMut(usize) -> String) -> String {
    let mut s = String::new();
    for i in 0..n {
        s += &f(i);
    }
    s
}

const TRI: &str = "v 0.1 0.2 0.3\nv 1.1 1.2 1.3\nv 2.1 2.2 2.3\nvt 0.1 0.2\nvt 1.1 1.2\nvn 0.1 0.2 0.3\nvn 1.1 1.2 1.3\n";

/// Everything that can occur any number of times, with its count.
pub fn dimensions() -> Vec<(&'static str, fn(usize) -> String)> {
    vec![
        ("vertices", |n| {
            let mut s = rep(n, |i| format!("v {}.1 {}.2 {}.3\n", i, i, i));
            if n > 0 {
                let _ = write!(s, "p 1 {} {} -1 -{}\nf {} 1 -1\n", n, (n + 1) / 2, n, n);
            }
            s
        }),
        ("equal vertices", |n| rep(n, |i| format!("v 1 2 3\nvt 1 2\nvn 1 2 3\np {}\n", i + 1))),
        ("vertices after an object", |n| {
            format!("v 1 2 3\no a\n{}o b\nv 4 5 6\np {} -1\n", rep(n, |i| format!("v {} 0 0\n", i)), n + 2)
        }),
        ("vertex index out of range", |n| format!("{}p {}\n", rep(n, |i| format!("v {}.5 0 0\n", i)), n + 1)),
        ("texture vertices", |n| {
            let mut s = String::from("v 1 2 3\n") + &rep(n, |i| format!("vt {}.1 {}.2\n", i, i));
            if n > 0 {
                let _ = write!(s, "f 1/1 1/{} 1/-1\nl 1/{} 1/-{}\n", n, (n + 1) / 2, n);
            }
            s
        }),
        ("normals", |n| {
            let mut s = String::from("v 1 2 3\n") + &rep(n, |i| format!("vn {}.1 {}.2 0\n", i, i));
            if n > 0 {
                let _ = write!(s, "f 1//1 1//{} 1//-1\nl 1//{} 1//-{}\n", n, (n + 1) / 2, n);
            }
            s
        }),
        ("faces", |n| format!("{}{}", TRI, rep(n, |i| format!("f {} {} {}\n", i % 3 + 1, (i + 1) % 3 + 1, (i / 3) % 3 + 1)))),
        ("points in a statement", |n| format!("{}g a\np{}\ng b\np 1\n", TRI, rep(n, |i| format!(" {}", i % 3 + 1)))),
        ("indices of a line", |n| {
            format!("{}usemtl a\nl{}\nusemtl b\np 1\n", TRI, rep(n, |i| format!(" {}/{}", i % 3 + 1, i % 2 + 1)))
        }),
        ("indices of a face", |n| format!("{}s 1\nf{}\ns 2\np 1\n", TRI, rep(n, |i| format!(" {}", i % 3 + 1)))),
        ("full indices of a face", |n| {
            format!("{}f{}\n", TRI, rep(n, |i| format!(" {}/{}/-{}", i % 3 + 1, i % 2 + 1, (i / 2) % 2 + 1)))
        }),
        ("relative indices of a line", |n| format!("{}l{}\n", TRI, rep(n, |i| format!(" -{}//-{}", i % 3 + 1, i % 2 + 1)))),
        ("group statements", |n| format!("{}{}", TRI, rep(n, |i| format!("g g{}\nf 1 2 3\n", i)))),
        ("group statements without elements", |n| format!("{}{}f 1 2 3\n", TRI, rep(n, |i| format!("g g{} h\n", i)))),
        ("nameless group statements", |n| format!("{}{}", TRI, rep(n, |i| if i % 2 == 0 { "g\nf 1 2 3\n" } else { "g a\np 1\n" }.to_string()))),
        ("names in a group statement", |n| format!("{}g{}\nf 1 2 3 1\n", TRI, rep(n, |i| format!(" n{}", i)))),
        ("elements in a group", |n| format!("{}g a\n{}g b\np 1\n", TRI, rep(n, |_| "f 1 2 3\n".to_string()))),
        ("smoothing statements", |n| format!("{}{}", TRI, rep(n, |i| format!("s {}\nf 1 2 3\n", i + 1)))),
        ("alternating smoothing statements", |n| {
            format!("{}{}", TRI, rep(n, |i| format!("s {}\nf 1 2 3\n", ["1", "off", "0", "7"][i % 4])))
        }),
        ("smoothing statements without elements", |n| format!("{}p 1\n{}f 1 2 3\n", TRI, rep(n, |i| format!("s {}\n", i)))),
        ("smoothing value", |n| format!("{}s {}\nf 1 2 3\ns off\np 1\n", TRI, n)),
        ("smoothing value decremented", |n| format!("{}s {}\nf 1 2 3\ns -{}\n", TRI, usize::MAX - n, n)),
        ("material statements", |n| format!("{}{}", TRI, rep(n, |i| format!("usemtl m{}\nf 1 2 3\n", i)))),
        ("equal material statements", |n| format!("{}{}", TRI, rep(n, |_| "usemtl m\nf 1 2 3\n".to_string()))),
        ("material statements without elements", |n| format!("{}p 1\n{}f 1 2 3\n", TRI, rep(n, |i| format!("usemtl m{}\n", i)))),
        ("trailing material statements", |n| format!("{}p 1\n{}", TRI, rep(n, |i| format!("usemtl m{}\n", i)))),
        ("elements of a material", |n| format!("{}usemtl a\n{}usemtl b\np 1\n", TRI, rep(n, |_| "p 1 2\n".to_string()))),
        ("objects", |n| rep(n, |i| format!("o o{}\nv {} 0 0\ng a{}\ns {}\nusemtl m{}\np -1 {}\n", i, i, i, i, i, i + 1))),
        ("empty objects", |n| rep(n, |i| format!("o o{}\n", i))),
        ("equally named objects", |n| rep(n, |i| format!("o x\nv {} 0 0\np -1\n", i))),
        ("objects with normals", |n| rep(n, |i| format!("o o{}\nv {} 0 0\nvn 0 0 1\nvn 0 1 {}\nf -1//-1 {}//{} -1//-2\n", i, i, i, i + 1, 2 * i + 1))),
        ("objects with texture vertices", |n| rep(n, |i| format!("o o{}\nv {} 0 0\nvt 0 {}\nvt 1 1\nl -1/-1 {}/{} -1/-2\n", i, i, i, i + 1, 2 * i + 1))),
        ("library names", |n| format!("mtllib{}\n{}p 1\n", rep(n, |i| format!(" l{}.mtl", i)), TRI)),
        ("library statements", |n| format!("{}{}p 1\n", rep(n, |i| format!("mtllib l{} x\n", i)), TRI)),
        ("blank lines before", |n| format!("{}{}p 1\n", "\n".repeat(n), TRI)),
        ("blank lines between", |n| format!("{}{}p 1\n{}g a\np 2\n", TRI, "\n".repeat(n), "\r\n".repeat(n))),
        ("blank lines after an object statement", |n| format!("o x\n{}{}p 1\n", "\n".repeat(n), TRI)),
        ("blank lines after", |n| format!("{}p 1\n{}", TRI, "\r".repeat(n))),
        ("blank lines after a library statement", |n| format!("mtllib a\n{}mtllib b\n{}{}p 1\n", "\n".repeat(n), "\r\n".repeat(n), TRI)),
        ("comment lines", |n| format!("{}{}p 1\n", TRI, rep(n, |i| format!("# comment {}\n", i)))),
        ("comment length", |n| format!("{}p 1 #{}\np 2\n", TRI, "p".repeat(n))),
        ("number signs", |n| format!("{}p 1 {}\np 2\n", TRI, "#".repeat(n))),
        ("blanks between words", |n| format!("{}f 1 2{} 3\n", TRI, " ".repeat(n))),
        ("blanks before a line", |n| format!("{}{}p 1\n", TRI, " \t".repeat(n))),
        ("blanks after a line", |n| format!("{}p 1{}\np 2\n", TRI, "\\".repeat(n))),
        ("length of an object name", |n| format!("o x{}\n{}p 1\n", "é".repeat(n), TRI)),
        ("length of a group name", |n| format!("{}g y x{} z\np 1\n", TRI, "a".repeat(n))),
        ("length of a material name", |n| format!("{}usemtl x{}\np 1\n", TRI, "日".repeat(n))),
        ("length of a library name", |n| format!("mtllib a x{} b\n{}p 1\n", "b".repeat(n), TRI)),
        ("length of an unknown statement", |n| format!("{}x{}\n", TRI, "y".repeat(n))),
        ("digits of a number", |n| format!("v 1{} -0.{}1 1.{}5\nvn 1e{} 0 0\n", "0".repeat(n), "0".repeat(n), "3".repeat(n), n)),
        ("leading zeros", |n| format!("{}p {}1\nf {}1 2/ 3\ns {}12\n", TRI, "0".repeat(n), "0".repeat(n), "0".repeat(n))),
        ("negative exponents", |n| format!("v 1e-{} 123456789e-{} -5.5e{}\n", n, n, n)),
        ("statements on one line", |n| format!("{}p 1\n", rep(n.max(1), |i| format!("v {} 0.5 1 ", i)))),
        ("fault after lines", |n| format!("{}{}f 1 2\n", TRI, rep(n, |i| format!("v {} 1 1\n", i)))),
        ("fault after blank lines", |n| format!("{}\n{}zz\n", TRI, "\n".repeat(n))),
        ("fault after comments", |n| format!("{}{}s x\n", TRI, rep(n, |_| "# c\r\n".to_string()))),
        ("fault after objects", |n| format!("{}o x\nv 1 2 x\n", rep(n, |_| "o a\nv 1 2 3\np -1\n\n".to_string()))),
        ("fault after CR lines", |n| format!("{}{}usemtl\r", TRI, "g a\r".repeat(n))),
        ("fault after empty lines before", |n| format!("{}f 1 2 3\n", "\n".repeat(n))),
        ("fault on a late operand", |n| format!("{}f{} 9\n", TRI, rep(n, |i| format!(" {}", i % 3 + 1)))),
        ("mixed forms late", |n| format!("{}f{} 1/1\n", TRI, rep(n, |i| format!(" {}", i % 3 + 1)))),
        ("mixed forms late in a line", |n| format!("{}l{} 1\n", TRI, rep(n, |i| format!(" {}//{}", i % 3 + 1, i % 2 + 1)))),
    ]
}

/// All dimensions times all counts.
pub fn sizes(dense: usize, top: u32) -> Space {
    let dims = dimensions();
    let counts = counts(dense, top);
    let k = dims.len() as u64;
    Space::new(
        "sizes",
        format!("{} things that can repeat, each with every count <= {} and around powers of two up to 2^{}", k, dense, top),
        k * counts.len() as u64,
        move |i, out| out.push_str(&dims[(i % k) as usize].1(counts[(i / k) as usize])),
    )
}

/// Numbers of items per object, forms, slots and index values (C04).
pub fn index_values(wide: bool) -> Space {
    let sizes: Vec<[usize; 3]> = (0..27).map(|i| [i % 3, (i / 3) % 3, i / 9]).chain([[3, 1, 2], [1, 3, 2], [2, 1, 3], [3, 3, 3]]).collect();
    let mut values: Vec<String> = (-8..=8).map(|v: i64| v.to_string()).collect();
    values.extend(["-0", "+1", "+3", "01", "003", "-01", "1.0", "1e0", "", "+", "-", "--1", "+-1", "x", "0x1", "1x", "٣", "1_0"].map(String::from));
    for bits in [8, 16, 31, 32, 63, 64] {
        for d in -3i128..=3 {
            values.push(((1i128 << bits) + d).to_string());
            values.push((-(1i128 << bits) + d).to_string());
        }
    }
    values.push("99999999999999999999999999999999999999999".into());
    values.push("-99999999999999999999999999999999999999999".into());
    values.push("18446744073709551617".into());
    values.sort();
    values.dedup();
    // Where the value stands: keyword, template.
    let slots: Vec<&'static str> = vec![
        "p @",
        "p B @",
        "p @ B",
        "l @ B",
        "l B @",
        "l B B @",
        "l B/@ B/U",
        "l B/U B/@",
        "l B//@ B//M",
        "f @ B B",
        "f B @ B",
        "f B B @",
        "f B B B @",
        "f @/U B/U B/U",
        "f B/@ B/U B/U",
        "f B/U B/@ B/U",
        "f B/U B/U B/@",
        "f B/U B/U B/U B/@",
        "f @//M B//M B//M",
        "f B//@ B//M B//M",
        "f B//M B//@ B//M",
        "f B//M B//M B//@",
        "f @/U/M B/U/M B/U/M",
        "f B/@/M B/U/M B/U/M",
        "f B/U/@ B/U/M B/U/M",
        "f B/U/M B/@/M B/U/M",
        "f B/U/M B/U/M B/U/@",
        "l B/@/M B/U/M",
        "l B/U/M B/U/@",
    ];
    let second: Vec<[usize; 3]> = if wide { sizes.clone() } else { vec![[1, 1, 1], [2, 1, 3], [3, 2, 1], [1, 0, 2], [2, 2, 0]] };
    let radix = [sizes.len() as u64, second.len() as u64, slots.len() as u64, values.len() as u64];
    Space::new(
        "index-values",
        format!(
            "{} item counts of a first object x {} of a second, {} index slots, {} index words (small, boundary and wrap-around values)",
            radix[0], radix[1], radix[2], radix[3]
        ),
        product(&radix),
        move |i, out| {
            let [a, b, s, v] = digits(i, radix);
            let (a, b) = (sizes[a], second[b]);
            for (number, count) in [a, b].iter().enumerate() {
                out.push_str(["o a\n", "o b\n"][number]);
                for k in 0..count[0] {
                    let _ = write!(out, "v {} 0 0\n", k + 10 * number);
                }
                for k in 0..count[1] {
                    let _ = write!(out, "vt {} 0\n", k + 10 * number);
                }
                for k in 0..count[2] {
                    let _ = write!(out, "vn {} 0 0\n", k + 10 * number);
                }
            }
            let line = slots[s]
                .replace('B', &(a[0] + 1).to_string())
                .replace('U', &(a[1] + 1).to_string())
                .replace('M', &(a[2] + 1).to_string())
                .replace('@', &values[v]);
            out.push_str(&line);
            out.push('\n');
        },
    )
}

/// Absolute and relative indices between large numbers of items.
pub fn far_indices(n: usize) -> Space {
    Space::new(
        "far-indices",
        format!("in objects of {} items, every index denoting each of them in steps around powers of two, absolute and relative", n),
        2 * 40 * 3,
        move |i, out| {
            let [second, at, kind] = digits(i, [2, 40, 3]);
            let k = (1usize << (at / 3 + 3)) + at % 3 - 1;
            let k = k.min(n);
            let keyword = ["v", "vt", "vn"][kind];
            let base = if second == 1 { 17 } else { 0 };
            if second == 1 {
                out.push_str("o a\n");
                for j in 0..17 {
                    let _ = write!(out, "v {0} 0 0\nvt {0} 0 0\nvn {0} 0 0\n", j);
                }
                out.push_str("o b\n");
            }
            out.push_str("v 0.5 0 0\n");
            for j in 0..n {
                let _ = write!(out, "{} {}.25 0 0\n", keyword, j);
            }
            let (first, total) = match kind {
                0 => (base + 1, base + 1 + n),
                _ => (base, base + n),
            };
            let a = first + k.max(1);
            let r = total - a + 1;
            let v = base + 1;
            let _ = match kind {
                0 => write!(out, "p {} -{}\nl {} -{}\np {}\n", a, r, a, r, total),
                1 => write!(out, "l {v}/{a} {v}/-{r}\nf {v}/{total} {v}/-1 {v}/{a}\n"),
                _ => write!(out, "l {v}//{a} {v}//-{r}\nf {v}//{total} {v}//-1 {v}//{a}\n"),
            };
        },
    )
}

/// All combinations of indices in one statement (C05).
pub fn index_tuples(max: u32) -> Space {
    let words = ["1", "2", "3/1", "-1", "2/2", "1//1", "2//2", "1/1/1", "3/2/2", "1/", "2//", "-2/-1/-2", "4", "/1", "a"];
    let k = words.len() as u64;
    let per = words_up_to(k, max);
    Space::new(
        "index-tuples",
        format!("p, l and f statements with all sequences of at most {} of {} index words", max, k),
        per * 3,
        move |i, out| {
            let mut letters = Vec::new();
            word(i / 3, k, &mut letters);
            out.push_str(TRI);
            out.push_str(["p", "l", "f"][(i % 3) as usize]);
            for l in letters {
                out.push(' ');
                out.push_str(words[l]);
            }
            out.push_str("\np 3\n");
        },
    )
}

/// Polygons and polylines over few vertices, so that indices repeat.
pub fn repeated_indices(max: u32) -> Space {
    let per = words_up_to(3, max);
    Space::new(
        "repeated-indices",
        format!("p, l and f with all sequences of at most {} indices over 3 vertices, in 4 forms, absolute and relative", max),
        per * 3 * 4 * 2,
        move |i, out| {
            let [w, keyword, form, relative] = digits(i, [per, 3, 4, 2]);
            let mut letters = Vec::new();
            word(w as u64, 3, &mut letters);
            out.push_str("v 0 0 0\nv 1 0 0\nv 2 0 0\nvt 0 1\nvt 1 1\nvt 2 1\nvn 0 0 1\nvn 1 0 1\nvn 2 0 1\n");
            out.push_str(["p", "l", "f"][keyword]);
            for (at, l) in letters.iter().enumerate() {
                let value = |shift: usize| {
                    let k = (l + shift * at) % 3;
                    if relative == 1 {
                        k as i64 - 3
                    } else {
                        k as i64 + 1
                    }
                };
                let _ = match form {
                    0 => write!(out, " {}", value(0)),
                    1 => write!(out, " {}/{}", value(0), value(1)),
                    2 => write!(out, " {}//{}", value(0), value(2)),
                    _ => write!(out, " {}/{}/{}", value(0), value(1), value(2)),
                };
            }
            out.push('\n');
        },
    )
}

/// All short index words in every position of every element.
pub fn index_words(max: u32) -> Space {
    let frames = ["p @\n", "p 1 @\n", "l @ 2\n", "l 1 @\n", "l 1 2 @\n", "f @ 2 3\n", "f 1 @ 3\n", "f 1 2 @\n", "f 1 2 3 @\n", "f 1/1 2/1 @\n", "f @ 1//1 1//1\n", "f 1/1/1 @ 1/1/1\n"];
    let frames: Vec<String> = frames.iter().map(|f| format!("{}{}g x\np 1\n", TRI, f)).collect();
    let frames: Vec<&str> = frames.iter().map(|f| f.as_str()).collect();
    framed("index-words", &frames, fragments("", &["1", "2", "/", "-", "a", "+", ".", "0"], max))
}

pub const NUMBER_FRAMES: [&str; 18] = [
    "v @ 2.5 3.5\n",
    "v 1.5 @ 3.5\n",
    "v 1.5 2.5 @\n",
    "v 1.5 2.5 3.5 @\n",
    "v 1.5 2.5 3.5 @ 5.5\n",
    "vt @\n",
    "vt 1.5 @\n",
    "vt 1.5 2.5 @\n",
    "vt 1.5 2.5 3.5 @\n",
    "vn @ 2.5 3.5\n",
    "vn 1.5 @ 3.5\n",
    "vn 1.5 2.5 @\n",
    "v 1 2 3\np @\n",
    "v 1 2 3\nl 1 @\n",
    "v 1 2 3\nvt 1\nf 1/@ 1/1 1/1\n",
    "v 1 2 3\nvn 1 2 3\nf 1//1 1//@ 1//1\n",
    "v 1 2 3\ns @\np 1\n",
    "o x\nv 1 2 @\nv 4 5 6\np 1\n",
];

/// Number words in every numeric position (C19, C03).
pub fn number_words(max: u32) -> Space {
    framed("number-words", &NUMBER_FRAMES, fragments("", &["1", "0", ".", "-", "e", "9", "+", "E", "_"], max))
}

pub fn special_numbers() -> Vec<String> {
    let mut words: Vec<String> = [
        "0", "-0", "0.0", "-0.0", "+0", "1", "-1", "+1.5", ".5", "5.", ".", "-.5", "+.5", "-5.", "1e5", "1E5", "1e+5", "1e-5", "1.e5", ".1e1", "e5",
        "1e", "1e+", "1e-", "inf", "-inf", "+inf", "Inf", "INF", "infinity", "-Infinity", "nan", "NaN", "-nan", "NAN", "1f", "1.0f", "1.5f32", "1d5", "0x10", "0b1", "0o7",
        "1,5", "1_000", "1'000", "1 ", "$1", "1%", "--1", "++1", "+-1", "1-", "1+", "1.2.3", "1..2", "1e5.5", "1e5e5", "１", "٣", "½", "²", "−1", "1e308",
        "1e309", "-1e309", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "4.9e-324", "5e-324", "2.5e-324", "2.4e-324", "2e-324", "1e-400",
        "2.2250738585072011e-308", "2.2250738585072014e-308", "2.2250738585072012e-308", "9007199254740991", "9007199254740992", "9007199254740993", "9007199254740994.5", "9007199254740995",
        "0.1", "0.2", "0.3", "0.30000000000000004", "1e22", "1e23", "8.41e21", "9.5e-7", "123456789012345678901234567890", "0.000000000000000000000000000001",
        "3.4028235e38", "3.5e38", "1.17549435e-38", "1e-45", "1e-46", "16777217", "16777216.5", "4294967296", "4294967295", "2147483648", "-2147483649", "65536", "256",
        "18446744073709551615", "18446744073709551616", "18446744073709551617", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
        "4294967297", "36893488147419103233", "00", "01", "-01", "+01", "0001.5000", "off", "on", "true", "null", "1.0", "2.0", "1e0", "v", "vt", "\u{0}", "1\u{0}", "\u{a0}1", "1\u{3000}",
        "0.1000000000000000055511151231257827021181583404541015625", "0.500000000000000166533453693773481063544750213623046875", "1.00000000000000011102230246251565404236316680908203124",
        "1.00000000000000011102230246251565404236316680908203125", "1.00000000000000011102230246251565404236316680908203126", "6929495644600919.5", "3.7455744005952583e15", "1e1000000000000", "1e-1000000000000", "0e99999999999999999999", "1e99999999999999999999",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for n in [15, 16, 17, 18, 19, 20, 21, 40, 100, 400, 800] {
        words.push("123456789".repeat(100)[..n].to_string());
        words.push(format!("0.{}", &"123456789".repeat(100)[..n]));
        words.push(format!("1{}", "0".repeat(n)));
        words.push(format!("0.{}1", "0".repeat(n)));
        words.push(format!("{}.{}", "9".repeat(n), "9".repeat(n)));
    }
    words
}

pub fn special_number_words() -> Space {
    framed("special-numbers", &NUMBER_FRAMES, Space::list("", "a table of special number words", special_numbers()))
}

/// Decimal fractions in all coordinates at once.
pub fn decimals(count: u64) -> Space {
    Space::new("decimals", format!("the decimals 0.00000 to {}.00000 in steps of 1e-5 (six per text), with exponents", count / 100_000), count / 6, |i, out| {
        let w = |k: u64| {
            let n = i * 6 + k;
            format!("{}{}.{:05}", if k % 2 == 1 { "-" } else { "" }, n / 100_000, n % 100_000)
        };
        let _ = write!(out, "v {} {} {} {}\nvt {} {}e{}\n", w(0), w(1), w(2), w(3), w(4), w(5), i as i64 % 600 - 300);
    })
}

/// Combinations of interesting values in all coordinates (C03).
pub fn value_products() -> Space {
    let values = ["0", "-0", "1", "-1.5", "1e-320", "1e300", "inf", "-inf", "nan", "0.1"];
    let k = values.len() as u64;
    let n4 = k.pow(4);
    let n3 = k.pow(3);
    let n2 = k * k;
    let parts = [n4, n3, n3, n3, n2, k];
    Space::new("value-products", format!("all combinations of {} values in v (3 and 4 components), vt (1 to 3) and vn", k), product_sum(&parts), move |i, out| {
        let mut i = i;
        let mut part = 0;
        while i >= parts[part] {
            i -= parts[part];
            part += 1;
        }
        let (keyword, n) = [("v", 4), ("v", 3), ("vn", 3), ("vt", 3), ("vt", 2), ("vt", 1)][part];
        out.push_str(keyword);
        for _ in 0..n {
            out.push(' ');
            out.push_str(values[(i % k) as usize]);
            i /= k;
        }
        out.push_str("\nv 7 8 9\nvt 7 8\nvn 7 8 9\np 1\n");
    })
}

fn product_sum(parts: &[u64]) -> u64 {
    parts.iter().sum()
}

/// Component counts of vertex statements, alone and in context.
pub fn component_counts() -> Space {
    let mut texts = Vec::new();
    for keyword in ["v", "vt", "vn"] {
        for n in 0..=7 {
            for before in ["", "v 9 9 9\n", "o x\n"] {
                for after in ["", "\n", "\nv 9 9 9\n", "\nvt 9 9\n", " v 9 9 9\n", " g a\n", "\np 1\n", " # 1\n", " x\n", "\no y\n"] {
                    let mut s = format!("{}{}", before, keyword);
                    for k in 0..n {
                        let _ = write!(s, " {}.1", k);
                    }
                    texts.push(s + after);
                }
            }
        }
    }
    Space::list("component-counts", "v, vt, vn with 0 to 7 components in 30 contexts", texts)
}

/// Faulty statements (with three vertices, two texture vertices and two
/// normals defined in the current object).
pub const FAULTS: [&str; 115] = [
    "v", "v 1", "v 1 2", "v x 2 3", "v 1 x 3", "v 1 2 x", "v 1 2 3 x", "v 1 2 3 4 5", "v 1 2 3 4 x", "v 1,2,3", "v 1/2/3 1 1", "vt", "vt x", "vt 1 x", "vt 1 2 x",
    "vt 1 2 3 4", "vt 1 2 3 x", "vn", "vn 1", "vn 1 2", "vn x 2 3", "vn 1 x 3", "vn 1 2 x", "vn 1 2 3 4", "vn 1 2 3 x", "p", "p 0", "p 9", "p -9", "p x", "p 1 0", "p 1 9",
    "p 1 x", "p 1/1", "p 1 2/1", "p 1.0", "p 1 2 3 -4", "l", "l 1", "l 0 1", "l 1 0", "l 1 9", "l 9 1", "l x 1", "l 1 x", "l 1 2 x", "l 1 2 9", "l 1/1 2", "l 1 2/1",
    "l 1/1 2//1", "l 1 2 3/1", "l 1/9 2/1", "l 1//9 2//1", "l /1 /2", "l 1/2/3/4 2", "f", "f 1", "f 1 2", "f 1 2 0", "f 1 2 9", "f 9 1 2", "f 1 9 2", "f 1 2 3 9", "f 1 2 3 x",
    "f x 1 2", "f 1 x 2", "f 1 2 x", "f 1/1 2 3", "f 1 2/1 3", "f 1 2 3/1", "f 1/1 2/1 3//1", "f 1/1/1 2/2/2 3/1", "f 1/1 2/2 3/1 1", "f 1/9 2/1 3/1", "f 1/1 2/1 3/9",
    "f 1//9 2//1 3//1", "f 1/1/9 2/1/1 3/1/1", "f 1/1/1/1 2 3", "f /1 2 3", "f //1 2 3", "f 1 2 -4", "f 1/-3 2/1 3/1", "f 1//-3 2//1 3//1", "f 1.5 2 3", "f 1 2 3 ,",
    "g a # b\nx", "s", "s x", "s -1", "s 1.5", "s Off", "s 1 2", "s off 1", "s 99999999999999999999999", "usemtl", "usemtl a b", "usemtl a 1", "o", "o a b", "o a v 1 2 3",
    "mtllib a", "mtllib", "x", "V 1 2 3", "F 1 2 3", "vp 1 2", "curv 0 1 1 2", "call a.obj", "fo 1 2 3", "vv 1 2 3", "1 2 3", "-", "/", "é", "end",
];

/// Valid statements to put before and after.
pub const BEFORE: [&str; 9] = [
    "",
    "\n",
    "# c\n\n",
    "mtllib a b\n",
    "o a\n",
    "mtllib a\n\no a\nv 1 2 3\nf 1 1 1\no b\n",
    "v 9 9 9\nvt 9\nvn 9 9 9\nf 1/1/1 1/1/1 1/1/1\np 1\n\r\no a\n\r# c\ng x\ns 3\nusemtl q\n",
    "g a b\ns 1\nusemtl m\n",
    "   \t\n\r\n\r",
];
pub const AFTER: [&str; 10] = ["", "\n", "\r\n", "\r", " \t\\ ", " # c", "#c\np 1\n", "\n\np 1\n", "\nx\n", "\n\n\no z\nv 1 2 3\n"];

/// Every fault in every context (C11, C12).
pub fn faults() -> Space {
    let radix = [FAULTS.len() as u64, BEFORE.len() as u64, AFTER.len() as u64, 6];
    Space::new(
        "faults",
        format!("{} faulty statements, after {} beginnings and 6 statements, before {} ends", radix[0], radix[1], radix[2]),
        product(&radix),
        move |i, out| {
            let [f, b, a, m] = digits(i, radix);
            out.push_str(BEFORE[b]);
            let base = BEFORE[b].contains("v 1 2 3") as usize + BEFORE[b].contains("v 9 9 9") as usize;
            // Three vertices etc. so that only the faults listed are faults.
            out.push_str(TRI);
            out.push_str(["", "f 1 2 3\n", "g u\n", "s 1\n", "usemtl w\n", "p -1 -2 -3"][m].replace("f 1 2 3", &format!("f {} {} {}", base + 1, base + 2, base + 3)).as_str());
            if m == 5 {
                out.push_str("\r\n");
            }
            out.push_str(FAULTS[f]);
            out.push_str(AFTER[a]);
        },
    )
}

/// Two faults at two lines: the first one counts.
pub fn fault_pairs() -> Space {
    let n = FAULTS.len() as u64;
    let between = ["\n", "\n\n# c\n", "\r", "\r\nv 1 2 3\r\n"];
    let radix = [n, n, between.len() as u64];
    Space::new("fault-pairs", "all pairs of faulty statements with 4 separators", product(&radix), move |i, out| {
        let [a, b, s] = digits(i, radix);
        out.push_str(TRI);
        out.push_str(FAULTS[a]);
        out.push_str(between[s]);
        out.push_str(FAULTS[b]);
        out.push('\n');
    })
}

/// Every short sequence of line kinds before a fault.
pub fn fault_lines(depth: u32) -> Space {
    let kinds = ["\n", "\r\n", "\r", "#\n", "# x\r", " \\ \r\n", "v 1 2 3\n", "g a # b\r\n", "usemtl m\r", "s 1 \n", "o x\n", "p -1\n", "v 1 2 3 4#\r\n", "vt 1\n"];
    let faults = ["zz\n", "f 1", "v 1 2\n", "s\r\n", "usemtl\r", "o\n", "p", "g x\rzz y\n", "l -1 \n", "vn 1 2 # c\n", "o a b\n"];
    let k = kinds.len() as u64;
    let n = words_up_to(k, depth);
    let m = faults.len() as u64;
    Space::new(
        "fault-lines",
        format!("{} faults after all sequences of at most {} lines of {} kinds", m, depth, k),
        n * m,
        move |i, out| {
            let mut letters = Vec::new();
            word(i / m, k, &mut letters);
            out.push_str("v 0 0 0\n");
            for l in letters {
                out.push_str(kinds[l]);
            }
            out.push_str(faults[(i % m) as usize]);
        },
    )
}

/// Unknown statements: all short words, and words of the wider format.
pub fn unknown_statements(letters: u32) -> Space {
    let mut words: Vec<String> = Vec::new();
    let alphabet: Vec<char> = "abcdefghijklmnopqrstuvwxyz_".chars().collect();
    let mut index = Vec::new();
    for i in 1..words_up_to(27, letters) {
        word(i, 27, &mut index);
        words.push(index.iter().map(|&l| alphabet[l]).collect());
    }
    let known = ["v", "vt", "vn", "p", "l", "f", "g", "s", "o", "usemtl", "mtllib"];
    for k in known {
        words.push(k.to_uppercase());
        words.push(format!("{}{}", k, k));
        words.push(format!("{}x", k));
        words.push(format!("{}1", k));
        words.push(format!("{}_", k));
        words.push(format!("{}:", k));
        words.push(format!(".{}", k));
        words.push(format!("\"{}\"", k));
        words.push(format!("\u{feff}{}", k));
        words.push(format!("{}\u{0}", k));
        words.push(format!("{}\u{b}", k));
        words.push(format!("{}\u{a0}", k));
        let mut c = k.to_string();
        c[..1].make_ascii_uppercase();
        words.push(c);
        if k.len() > 1 {
            words.push(k[..k.len() - 1].to_string());
            words.push(k[1..].to_string());
        }
    }
    for w in [
        "vp", "deg", "bmat", "step", "cstype", "curv", "curv2", "surf", "parm", "trim", "hole", "scrv", "sp", "end", "con", "mg", "bevel", "c_interp", "d_interp", "lod", "shadow_obj",
        "trace_obj", "ctech", "stech", "maplib", "usemap", "call", "csh", "bsp", "bzp", "cdc", "cdp", "res", "fo", "newmtl", "Ka", "illum", "default", "off", "xyzrgb", "include", "#", "//", "/*",
        ";", "!", "0", "1", "-1", "1.0", "é", "ｖ",
    ] {
        words.push(w.to_string());
    }
    words.sort();
    words.dedup();
    let frames = [
        "@\n",
        "@ 1 2 3\n",
        "v 1 2 3\n@ 1\np 1\n",
        "v 1 2 3\np 1\n@",
        "mtllib a\n@ a\nv 1 2 3\n",
        "o x\n@ x\nv 1 2 3\np 1\n",
        "v 1 2 3 @\np 1\n",
        "usemtl a @ b\n",
        "v 1 2 3\nf 1 1 1\n\n  @ 1 1 1\nf 1 1 1\n",
    ];
    framed("unknown-statements", &frames, Space::list("", format!("all words of at most {} letters and words of the wider format", letters), words))
}

/// Rich valid files to be edited.
pub fn base_files() -> Vec<&'static str> {
    vec![
        "mtllib a b\nmtllib c\no x\nv 1 2 3\nv 4 5 6 7\nv 8 9 10\nvt 1\nvt 1 2\nvt 1 2 3\nvn 1 2 3\ng a b\ns 1\nusemtl m\nf 1/1/1 2/2/1 3/3/1\np 1 2\nl 1 2 3\no y\nv 1 1 1\nvn 0 0 1\nusemtl n\ns off\nf -1//-1 4//2 -1//2\ng\np 4 -1\n",
        "v 1 2 3\nf 1 1 1 1\n",
        "o a\no b\n\ng\nusemtl m\n",
        "# head\n\nv 0.5 -1e3 .25\r\nvt 1 0\r\nl 1/1 1/1\ro z\rv 1 2 3\rp 2 # tail",
        "mtllib a\n\nv 1 2 3\ng g1\np 1\ng g2 g3\np 1\ns 2\np 1\nusemtl q\np 1\n",
    ]
}

/// Words used for replacing and inserting.
const POOL: [&str; 34] = [
    "\n", "1", "-1", "0", "2", "x", "v", "vt", "vn", "p", "l", "f", "g", "s", "o", "usemtl", "mtllib", "1/1", "1//1", "1/1/1", "/", "1.5", "off", "#", "\\", "\r", "\r\n", "99", "-", "é", "1 2 3", "f 1 1 1", "\n\n", "\t",
];

/// The words of a file, line terminators included.
fn tokens(text: &str) -> Vec<String> {
    let mut result = Vec::new();
    let mut cur = String::new();
    for c in text.chars() {
        if c == ' ' || c == '\n' || c == '\r' {
            if !cur.is_empty() {
                result.push(std::mem::take(&mut cur));
            }
            if c != ' ' {
                result.push(c.to_string());
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        result.push(cur);
    }
    result
}

/// Apply edit number `e` to a list of words.
fn edit(words: &mut Vec<String>, e: u64) {
    let (kind, at) = ((e % edit_kinds()) as usize, (e / edit_kinds()) as usize);
    let n = POOL.len();
    if kind == 0 {
        if at < words.len() {
            words.remove(at);
        }
    } else if kind == 1 {
        if at < words.len() {
            let w = words[at].clone();
            words.insert(at, w);
        }
    } else if kind == 2 {
        if at + 1 < words.len() {
            words.swap(at, at + 1);
        }
    } else if kind < 3 + n {
        if at < words.len() {
            words[at] = POOL[kind - 3].to_string();
        }
    } else if at <= words.len() {
        words.insert(at, POOL[kind - 3 - n].to_string());
    }
}

fn edit_kinds() -> u64 {
    3 + 2 * POOL.len() as u64
}

pub fn join(words: &[String], out: &mut String) {
    for (i, w) in words.iter().enumerate() {
        let end = |s: &str| s == "\n" || s == "\r";
        if i > 0 && !end(w) && !end(&words[i - 1]) {
            out.push(' ');
        }
        out.push_str(w);
    }
}

/// All single edits of words of valid files (insert, delete, repeat, replace,
/// swap), including line terminators.
pub fn word_edits(files: Vec<&str>) -> Space {
    let files: Vec<Vec<String>> = files.iter().map(|f| tokens(f)).collect();
    let sizes: Vec<u64> = files.iter().map(|f| (f.len() as u64 + 1) * edit_kinds()).collect();
    Space::new(
        "word-edits",
        format!("all single edits of the words of {} valid files ({} kinds of edits)", files.len(), edit_kinds()),
        sizes.iter().sum(),
        move |mut i, out| {
            let mut f = 0;
            while i >= sizes[f] {
                i -= sizes[f];
                f += 1;
            }
            let mut words = files[f].clone();
            edit(&mut words, i);
            join(&words, out);
        },
    )
}

/// All pairs of word edits of a file.
pub fn word_edit_pairs(file: &str) -> Space {
    let words = tokens(file);
    let n = (words.len() as u64 + 1) * edit_kinds();
    Space::new(
        "word-edit-pairs",
        format!("all pairs of edits of the {} words of a valid file", words.len()),
        n * n,
        move |i, out| {
            let mut words = words.clone();
            edit(&mut words, i % n);
            edit(&mut words, i / n);
            join(&words, out);
        },
    )
}

const CHARS: [char; 26] = [
    ' ', '\n', '\r', '\t', '\\', '#', '/', '-', '+', '.', '0', '1', '9', 'e', 'v', 'f', 'o', 'g', 's', 'x', '\u{0}', '\u{c}', 'é', '日', '\u{feff}', '"',
];

/// All single character edits and all truncations.
pub fn character_edits(files: Vec<&str>) -> Space {
    let files: Vec<Vec<char>> = files.iter().map(|f| f.chars().collect()).collect();
    let kinds = 3 + 2 * CHARS.len() as u64;
    let sizes: Vec<u64> = files.iter().map(|f| (f.len() as u64 + 1) * kinds).collect();
    Space::new(
        "character-edits",
        format!("all single character edits and truncations (front and back) of {} valid files", files.len()),
        sizes.iter().sum(),
        move |mut i, out| {
            let mut f = 0;
            while i >= sizes[f] {
                i -= sizes[f];
                f += 1;
            }
            let chars = &files[f];
            let (kind, at) = ((i % kinds) as usize, (i / kinds) as usize);
            let n = CHARS.len();
            if kind == 0 {
                out.extend(&chars[..at]);
            } else if kind == 1 {
                out.extend(&chars[at..]);
            } else {
                out.extend(&chars[..at]);
                let skip = if kind < 3 + n { 1 } else { 0 };
                if kind >= 3 {
                    out.push(CHARS[(kind - 3) % n]);
                }
                out.extend(&chars[(at + skip).min(chars.len())..]);
            }
        },
    )
}

/// All pairs of single character edits of a short file.
pub fn character_edit_pairs(file: &str) -> Space {
    let chars: Vec<char> = file.chars().collect();
    let kinds = 1 + 2 * CHARS.len() as u64;
    let n = (chars.len() as u64 + 1) * kinds;
    Space::new(
        "character-edit-pairs",
        format!("all pairs of single character edits of a file of {} characters", chars.len()),
        n * n,
        move |i, out| {
            let mut chars = chars.clone();
            for e in [i % n, i / n] {
                let (kind, at) = ((e % kinds) as usize, (e / kinds) as usize);
                let k = CHARS.len();
                if kind == 0 {
                    if at < chars.len() {
                        chars.remove(at);
                    }
                } else if kind <= k {
                    if at < chars.len() {
                        chars[at] = CHARS[kind - 1];
                    }
                } else if at <= chars.len() {
                    chars.insert(at, CHARS[kind - 1 - k]);
                }
            }
            out.extend(chars);
        },
    )
}

/// Statements sharing lines in all ways.
pub fn shared_lines(depth: u32) -> Space {
    let parts = ["v 1 2 3", "vt 1", "vn 1 2 3", "g a", "s 1", "usemtl m", "p -1", "f -1 -1 -1", "o x", "l -1 -1", "mtllib z"];
    let mut all: Vec<String> = Vec::new();
    for p in parts {
        all.push(format!("{} ", p));
        all.push(format!("{}\n", p));
    }
    let all: Vec<&str> = all.iter().map(|s| s.as_str()).collect();
    let space = fragments("shared-lines", &all, depth);
    Space { bound: format!("all sequences of at most {} statements of {} kinds, each ending its line or not", depth, parts.len()), ..space }
}

/// Every Unicode scalar value as part of every name (C18).
pub fn scalar_names() -> Space {
    Space::new("scalar-names", "every Unicode scalar value at the start, within and at the end of every kind of name", 0x110000 - 0x800, |i, out| {
        let c = scalar(i);
        let _ = write!(out, "mtllib a{c}b.mtl x{c}\no {c}n\nv 1 2 3\ng {c} m{c}m\nusemtl k{c}\np 1\nusemtl {c}{c}\np 1\n");
    })
}

pub fn scalar(i: u64) -> char {
    let code = if i < 0xD800 { i } else { i + 0x800 };
    char::from_u32(code as u32).unwrap()
}

pub const TRICKY: [&str; 24] = [
    "a", "A", "é", "e\u{301}", "\"", "'", "/", ".", "-", "1", ":", "%", "\u{feff}", "\u{a0}", "\u{85}", "\u{2028}", "\u{b}", "\u{c}", "\u{0}", "\u{7f}", "日", "😀", "#", "\\",
];

pub const NAME_FRAMES: [&str; 9] = [
    "mtllib @\n",
    "mtllib a @ b\nv 1 2 3\n",
    "o @\nv 1 2 3\np 1\n",
    "o a\nv 1 2 3\np 1\no @\nv 1 2 3\n",
    "v 1 2 3\ng @\np 1\n",
    "v 1 2 3\ng a @ b\np 1\ng c\np 1\n",
    "v 1 2 3\nusemtl @\np 1\n",
    "v 1 2 3\np 1\nusemtl @\np 1\nusemtl a\np 1",
    "v 1 2 3\ns 1\ng @ @\nusemtl @\r\np 1",
];

pub fn tricky_names(depth: u32) -> Space {
    framed("tricky-names", &NAME_FRAMES, fragments("", &TRICKY, depth))
}

pub fn keyword_names() -> Space {
    let mut words: Vec<String> = Vec::new();
    for k in [
        "v", "vt", "vn", "p", "l", "f", "g", "s", "o", "usemtl", "mtllib", "newmtl", "off", "default", "0", "1", "-1", "1/1", "1.5", "inf", "nan", "none", "None", "null", "\"\"", "''", "*", ".", "..", "/", "a/b", "a b.mtl", "C:/x", "http://x",
        "(null)", "Material.001", "a=b", "a;b", "a,b", "$x", "%20", "&amp;", "[0]", "{}", "<x>", "~", "`", "|", "^", "@", "!", "?", "\u{1b}[0m", "Ka", "Kd", "illum", "bump", "true", "object", "unnamed", "Group", "DEFAULT", "Off", "OFF",
    ] {
        words.push(k.to_string());
        words.push(format!("{}{}", k, k));
        words.push(format!("_{}", k));
        words.push(format!("{}_", k));
        words.push(k.to_uppercase());
    }
    framed("keyword-names", &NAME_FRAMES, Space::list("", "names that are keywords, numbers and the like", words))
}

/// All ways to name several things with equal or different names.
pub fn name_coincidences() -> Space {
    let names = ["a", "b", "default"];
    let radix = [3u64; 8];
    Space::new("name-coincidences", "all assignments of 3 names to 8 names of a file", 3u64.pow(8), move |i, out| {
        let d = digits(i, radix);
        let n = |k: usize| names[d[k]];
        let _ = write!(
            out,
            "mtllib {} {}\no {}\nv 1 2 3\ng {} {}\nusemtl {}\np 1\no {}\nv 4 5 6\ng {}\nusemtl {}\np -1 2\n",
            n(0),
            n(1),
            n(2),
            n(3),
            n(4),
            n(5),
            n(6),
            n(7),
            n(5)
        );
    })
}

/// All texts over a small set of characters (C01).
pub fn raw_texts(depth: u32) -> Space {
    fragments("raw-texts", &["v", "f", "1", " ", "\n", "/", "-", "#", "o", "\\", "\r", "g", "s", "p", "l", "é"], depth)
}

/// All sequences of words, with vertices before.
pub fn word_salad(depth: u32) -> Space {
    let words = [
        "\n", " ", "v ", "vt ", "vn ", "f ", "l ", "p ", "g ", "s ", "o ", "usemtl ", "mtllib ", "1 ", "-1 ", "0 ", "1/1 ", "1//1 ", "1/1/1 ", "/ ", "x ", "off ", "1.5 ", "# ", "\r", "-9223372036854775808 ", "9223372036854775807 ",
    ];
    framed("word-salad", &["@", "v 1 2 3\nvt 1\nvn 1 2 3\n@"], fragments("", &words, depth))
}

/// The example files of the repository, whole and cut off after every line.
pub fn assets(cuts: bool) -> Space {
    let mut files = Vec::new();
    for name in ["al.obj", "cube.obj", "cube_vt.obj", "symphysis.obj", "teapot.obj"] {
        if let Ok(bytes) = std::fs::read(format!("/repo/assets/{}", name)) {
            files.push(String::from_utf8_lossy(&bytes).into_owned());
        }
    }
    let mut points = Vec::new();
    for (f, text) in files.iter().enumerate() {
        points.push((f, text.len()));
        if cuts {
            let ends: Vec<usize> = text.match_indices('\n').map(|m| m.0).collect();
            let step = (ends.len() / 60).max(1);
            for e in ends.iter().step_by(step) {
                for d in [0, 1, 2, 3] {
                    let cut = (e + 1).saturating_sub(d);
                    if text.is_char_boundary(cut) {
                        points.push((f, cut));
                    }
                }
            }
        }
    }
    Space::new("assets", "the example files of the repository, whole and cut off at up to 60 places", points.len() as u64, move |i, out| {
        let (f, cut) = points[i as usize];
        out.push_str(&files[f][..cut]);
    })
}

/// Every scalar value in words that are rejected (and quoted in messages).
pub fn scalar_faults() -> Space {
    Space::new("scalar-faults", "every Unicode scalar value in a rejected word of 6 positions", (0x110000 - 0x800) * 6, |i, out| {
        let c = scalar(i / 6);
        let _ = match i % 6 {
            0 => write!(out, "x{c}y\n"),
            1 => write!(out, "v 1 2 {c}\n"),
            2 => write!(out, "v 1 2 3\nf 1 1 1{c}\n"),
            3 => write!(out, "s {c}1\n"),
            4 => write!(out, "v 1 2 3\np a{c}\n"),
            _ => write!(out, "o a {c}b\n"),
        };
    })
}

/// All powers of ten in the range of doubles with several mantissas.
pub fn exponents() -> Space {
    let mantissas = ["1", "-1", "9.999999", "1.7976931348623157", "2.2250738585072014", "4.9406564584124654", "123456789.123456789", "0.000001", "5", "3."];
    let k = mantissas.len() as u64;
    Space::new("exponents", "10 mantissas with every exponent from -350 to 350, in three notations", 701 * k * 3, move |i, out| {
        let [e, m, n] = digits(i, [701, k, 3]);
        let e = e as i64 - 350;
        let w = match n {
            0 => format!("{}e{}", mantissas[m], e),
            1 => format!("{}E{}{}", mantissas[m], if e < 0 { "-" } else { "+" }, e.abs()),
            _ => format!("{}e{}0{}", mantissas[m], if e < 0 { "-" } else { "" }, e.abs()),
        };
        let _ = write!(out, "v {w} {w} {w} {w}\nvt {w} {w} {w}\nvn {w} {w} {w}\n");
    })
}

/// All dimensions at these counts.
pub fn sizes_at(counts: &[usize]) -> Space {
    let dims = dimensions();
    let counts = counts.to_vec();
    let k = dims.len() as u64;
    Space::new(
        "sizes-at",
        format!("{} things that can repeat, {:?} times", k, counts),
        k * counts.len() as u64,
        move |i, out| out.push_str(&dims[(i % k) as usize].1(counts[(i / k) as usize])),
    )
}
