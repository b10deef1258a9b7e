//! Spaces that vary one thing over a wide range in every position of both
//! formats: long words of any script, runs of blanks and of line ends, and
//! all combinations of the features of a file.

use crate::mtlspace as m;
use crate::objspace as o;
use crate::space::{digits, fragments, framed, product, word, words_up_to, Space};
use std::fmt::Write;

fn lengths(dense: usize, wide: bool) -> Vec<usize> {
    let mut all: Vec<usize> = (1..=dense).collect();
    for k in 5..=if wide { 16 } else { 12 } {
        for d in [-1i64, 0, 1] {
            all.push(((1i64 << k) + d) as usize);
        }
    }
    all.extend([100, 200, 500, 1000]);
    all.sort();
    all.dedup();
    all
}

fn word_frames() -> Vec<&'static str> {
    let mut frames = vec![
        "@\n",
        "@ 1 2 3",
        "v 1 2 3\n@ 1\np 1\n",
        "v 1 2 3\nf 1 1 1 @\n",
        "v 1 2 3\nf 1/@ 1 1\n",
        "v 1 2 3\nf 1//@ 1 1\n",
        "v 1 2 3\nl @/1 1\n",
        "v 1 2 3\np 1 @\n",
        "usemtl a @\n",
        "o a @\n",
        "s 1 @\n",
        "mtllib a\n@\n",
        "o x\n@",
        "# @\nv 1 2 3\np 1\n",
        "v 1 2 3#@\np 1\n",
    ];
    frames.extend(o::NUMBER_FRAMES);
    frames.extend(o::NAME_FRAMES);
    frames
}

fn mtl_word_frames() -> Vec<&'static str> {
    let mut frames = vec!["@\n", "newmtl a\n@ 1\n", "newmtl a @\n", "newmtl a\nmap_Kd x @\n", "newmtl a\nd 1 @", "# @\nnewmtl a\n", "newmtl a # @\nd 0.5\n", "newmtl a\nillum 1 @\n", "\n@"];
    frames.extend(m::NUMBER_FRAMES);
    frames.extend(m::NAME_FRAMES);
    frames
}

/// Words of one repeated character of 1, 2, 3 or 4 bytes, at every offset.
fn long(dense: usize, wide: bool) -> Space {
    let lengths = lengths(dense, wide);
    let fills: Vec<(usize, &'static str)> = ["x", "é", "日", "😀", "0", "9"].iter().flat_map(|u| (0..u.len()).map(move |k| (k, *u))).collect();
    let radix = [lengths.len() as u64, fills.len() as u64];
    Space::new(
        "",
        format!("words of {} lengths up to {} of characters of 1 to 4 bytes, shifted by 0 to 3 bytes", lengths.len(), lengths.last().unwrap()),
        product(&radix),
        move |i, out| {
            let [n, f] = digits(i, radix);
            let (shift, unit) = fills[f];
            out.push_str(&"xyz"[..shift]);
            for _ in 0..lengths[n] {
                out.push_str(unit);
            }
        },
    )
}

pub fn long_words(dense: usize, wide: bool) -> Space {
    framed("long-words", &word_frames(), long(dense, wide))
}

pub fn mtl_long_words(dense: usize, wide: bool) -> Space {
    framed("mtl/long-words", &mtl_word_frames(), long(dense, wide))
}

/// Runs `a^n b^m` of two units.
fn runs(units: &[&'static str], dense: usize) -> Space {
    let units = units.to_vec();
    let lengths = lengths(dense, false);
    let seconds = [0usize, 1, 2, 3, 9];
    let k = units.len() as u64;
    let radix = [lengths.len() as u64, seconds.len() as u64, k, k];
    Space::new(
        "",
        format!("runs of {} lengths of one of {:?} followed by a run of {:?} of another", lengths.len(), units, seconds),
        product(&radix),
        move |i, out| {
            let [n, m, a, b] = digits(i, radix);
            for _ in 0..lengths[n] {
                out.push_str(units[a]);
            }
            for _ in 0..seconds[m] {
                out.push_str(units[b]);
            }
        },
    )
}

pub fn blank_runs(dense: usize) -> Space {
    let frames = [
        "v@1 2 3\np 1\n",
        "v 1 2@3\np 1\n",
        "@v 1 2 3\np 1\n",
        "v 1 2 3@\np 1\n",
        "v 1 2 3\n@\np 1\n",
        "v 1 2 3\n@",
        "v 1 2 3@# c\np 1\n",
        "v 1 2 3\r\n@p@1@\r\n",
        "v 1 2 3\ng a@b\nf 1@1 1@1\n",
        "mtllib@a@b\n@o@x\nv 1 2 3\n",
        "v 1 2 3\ns@off\nusemtl@m\np 1@1",
        "v 1 2 3\n@zz\n",
        "v 1 2@\n",
    ];
    framed("blank-runs", &frames, runs(&[" ", "\t", "\\"], dense))
}

pub fn mtl_blank_runs(dense: usize) -> Space {
    let frames = ["newmtl@a\nKa@1 2@3\n", "@newmtl a\n@illum 1@\n@d 1\n", "newmtl a@\n@\nmap_Kd@x@# c\nNs 1@", "newmtl a\n@zz\n", "newmtl a\nd@\n"];
    framed("mtl/blank-runs", &frames, runs(&[" ", "\t", "\\"], dense))
}

const ENDS: [&str; 7] = ["\n", "\r", "\r\n", " \n", "#\n", "# c\r\n", "\t#x\r"];

pub fn line_runs(dense: usize) -> Space {
    let frames = [
        "@v 1 2 3\np 1\n",
        "v 1 2 3\n@p 1\n",
        "v 1 2 3\np 1\n@",
        "mtllib a\n@mtllib b\n@o x\n@v 1 2 3\n",
        "o x\n@g a\ns 1\nv 1 2 3\n@p 1\no y\n@",
        "v 1 2 3\n@zz\n",
        "@v 1 2",
        "v 1 2 3\nf 1 1\n@",
        "@s",
        "@usemtl\n@",
    ];
    framed("line-runs", &frames, runs(&ENDS, dense))
}

pub fn mtl_line_runs(dense: usize) -> Space {
    let frames = ["@newmtl a\n@d 0.5\n@", "newmtl a\n@newmtl b\n@illum 0\n", "newmtl a\n@zz\n", "@d 1\n", "@newmtl a\n@Ka 1 2", "newmtl a\n@map_Kd\n@", "@newmtl"];
    framed("mtl/line-runs", &frames, runs(&ENDS, dense))
}

/// All combinations of what can come before, around and after an element.
pub fn features(rich: bool) -> Space {
    let before = [
        "",
        "o a\n",
        "mtllib l\n",
        "v 9 9 9\nvt 9\nvn 9 9 9\nf 1/1/1 1/1/1 1/1/1\no a\n",
        "mtllib l k\no z\nv 9 9 9\nv 8 8 8\ng q r\ns 5\nusemtl w\nl -1 -2 1\no a\n",
        "o z\nvt 9 9\nvt 8 8\nvn 7 7 7\no y\no a\n",
    ];
    let groups = ["", "g\n", "g a\n", "g a b\n", "g default\n", "g a\ng b\n"];
    let smooth = ["", "s off\n", "s 0\n", "s 1\n", "s 1\ns 2\n"];
    let material = ["", "usemtl m\n", "usemtl m\nusemtl n\n"];
    let keywords: &[(&str, usize)] = &[("p", 1), ("p", 3), ("l", 2), ("l", 3), ("l", 4), ("f", 3), ("f", 4), ("f", 5)];
    let then = ["", "g c\n", "s 3\n", "usemtl o\n", "g a\n", "s off\n", "usemtl m\n", "g\n", "v 3 3 3\nvt 3\nvn 3 3 3\n", "o b\nv 3 3 3\nvt 3\nvn 3 3 3\n"];
    let keywords = keywords.to_vec();
    let radix = [
        before.len() as u64,
        groups.len() as u64,
        smooth.len() as u64,
        material.len() as u64,
        keywords.len() as u64,
        4,
        2,
        then.len() as u64,
        if rich { then.len() as u64 } else { 1 },
    ];
    Space::new(
        "features",
        format!("all combinations of {} beginnings, {} group, {} smoothing and {} material statements, {} elements in 4 forms, absolute and relative, and {} statements after, then another element", radix[0], radix[1], radix[2], radix[3], radix[4], radix[7] * radix[8]),
        product(&radix),
        move |i, out| {
            let [b, g, s, m, k, form, relative, t, u] = digits(i, radix);
            out.push_str(before[b]);
            out.push_str("v 0 0 0\nv 1 0 0\nv 1 1 0\nvt 0 0\nvt 1 0\nvn 0 0 1\nvn 0 1 0\n");
            let count = |word: &str| before[b].lines().filter(|l| l.split(' ').next() == Some(word)).count() as i64;
            let base = [count("v"), count("vt"), count("vn")];
            out.push_str(groups[g]);
            out.push_str(smooth[s]);
            out.push_str(material[m]);
            let (keyword, n) = keywords[k];
            let form = if keyword == "p" { 0 } else { form };
            let element = |word: &str, n: usize, shift: usize, base: [i64; 3], out: &mut String| {
                out.push_str(word);
                for j in 0..n {
                    let at = |kind: usize, size: i64| {
                        let k = (j + shift + kind) as i64 % size;
                        if relative == 1 {
                            k - size
                        } else {
                            base[kind] + k + 1
                        }
                    };
                    let _ = match form {
                        0 => write!(out, " {}", at(0, 3)),
                        1 => write!(out, " {}/{}", at(0, 3), at(1, 2)),
                        2 => write!(out, " {}//{}", at(0, 3), at(2, 2)),
                        _ => write!(out, " {}/{}/{}", at(0, 3), at(1, 2), at(2, 2)),
                    };
                }
                out.push('\n');
            };
            element(keyword, n, 0, base, out);
            out.push_str(then[t]);
            out.push_str(then[u]);
            if then[t].starts_with('o') || then[u].starts_with('o') {
                out.push_str("f -1 -1 -1\np -1\n");
            } else {
                element(keyword, n, 1, base, out);
                out.push_str("p -1\n");
            }
        },
    )
}

/// Vertex data whose components coincide in all ways.
pub fn similar_items(count: u32) -> Space {
    let mut pool: Vec<String> = Vec::new();
    for i in 0..8 {
        let bit = |k: u32| (i >> k) & 1;
        for w in ["", " 0", " 1", " 2"] {
            pool.push(format!("v {} {} {}{}\n", bit(0), bit(1), bit(2), w));
        }
        pool.push(format!("vn {} {} {}\n", bit(0), bit(1), bit(2)));
        pool.push(format!("vt {} {} {}\n", bit(0), bit(1), bit(2)));
        if i < 4 {
            pool.push(format!("vt {} {}\n", bit(0), bit(1)));
        }
        if i < 2 {
            pool.push(format!("vt {}\n", bit(0)));
        }
    }
    pool.push("o a\n".into());
    pool.push("p -1\n".into());
    let pool: Vec<&str> = pool.iter().map(|s| s.as_str()).collect();
    let space = fragments("similar-items", &pool, count);
    Space { bound: format!("all sequences of at most {} of {} vertex statements with components 0 and 1 and weights absent, 0, 1 and 2", count, pool.len()), ..space }
}

/// Statements naming things with names that resemble each other.
pub fn similar_names(count: u32) -> Space {
    let names = ["a", "A", "aa", "default", "off", "á", "0", "00", "a."];
    let mut pool: Vec<String> = Vec::new();
    for n in names {
        pool.push(format!("g {}\np -1\n", n));
        pool.push(format!("usemtl {}\np -1\n", n));
        pool.push(format!("o {}\nv 1 2 3\np -1\n", n));
        pool.push(format!("g a {}\np -1\n", n));
    }
    pool.push("g\np -1\n".into());
    pool.push("s 1\np -1\n".into());
    pool.push("s 01\np -1\n".into());
    pool.push("s 0\np -1\n".into());
    let pool: Vec<&str> = pool.iter().map(|s| s.as_str()).collect();
    let k = pool.len();
    let space = framed("similar-names", &["v 1 2 3\n@", "mtllib a A\no a\nv 1 2 3\n@"], fragments("", &pool, count));
    Space { bound: format!("all sequences of at most {} of {} naming statements with similar names, an element after each, in 2 contexts", count, k), ..space }
}

/// Every ASCII character (and some others) inserted into and replacing parts
/// of number words.
fn insertions() -> Space {
    let words = ["1", "12", "1.5", "-2", "1e2", "25.50", "+3.0e-1", "0"];
    let mut chars: Vec<char> = (0u8..128).map(|b| b as char).collect();
    chars.extend("\u{80}\u{85}\u{a0}éß٣१۵一½²³−–—．，＋－０１９Ｅｅ\u{200b}\u{feff}\u{2028}😀".chars());
    let mut all = Vec::new();
    for w in words {
        for at in 0..=w.len() {
            for &c in &chars {
                all.push(format!("{}{}{}", &w[..at], c, &w[at..]));
                if at < w.len() {
                    all.push(format!("{}{}{}", &w[..at], c, &w[at + 1..]));
                }
            }
        }
    }
    all.sort();
    all.dedup();
    Space::list("", "all insertions and replacements of a character in 8 number words", all)
}

pub fn number_insertions() -> Space {
    framed("number-insertions", &o::NUMBER_FRAMES, insertions())
}

pub fn mtl_number_insertions() -> Space {
    framed("mtl/number-insertions", &m::NUMBER_FRAMES, insertions())
}

/// Property statements with values from a small set, so that they repeat,
/// return to a former value or state a default.
pub fn mtl_values(count: u32) -> Space {
    let mut pool: Vec<String> = Vec::new();
    for s in ["d", "Ns", "Ni"] {
        for v in ["0", "1", "0.5", "2", "-1", "1000.5"] {
            pool.push(format!("{} {}\n", s, v));
        }
    }
    for s in ["Ka", "Kd", "Ks", "Ke"] {
        for v in ["0 0 0", "1 1 1", "0.5 0.25 0.5", "2 -1 0"] {
            pool.push(format!("{} {}\n", s, v));
        }
    }
    for s in ["map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_d", "map_Bump", "bump", "disp", "decal"] {
        for v in ["a", "b"] {
            pool.push(format!("{} {}\n", s, v));
        }
    }
    for s in ["illum 0\n", "illum 1\n", "illum 2\n", "newmtl m\n", "newmtl a\n"] {
        pool.push(s.into());
    }
    let pool: Vec<&str> = pool.iter().map(|s| s.as_str()).collect();
    let k = pool.len();
    let space = framed("mtl/values", &["newmtl m\n@"], fragments("", &pool, count));
    Space { bound: format!("all sequences of at most {} of {} statements over small sets of values", count, k), ..space }
}

/// Whole files: numbers of objects, of items of each kind and of elements,
/// and how often group, smoothing and material statements come.
pub fn meshes(rich: bool) -> Space {
    let counts: [&'static [usize]; 3] = if rich { [&[1, 2, 4, 11, 40, 260], &[0, 1, 3, 12, 50, 260], &[0, 1, 2, 13, 45, 300]] } else { [&[1, 2, 4, 11, 40], &[0, 1, 3, 50], &[0, 1, 2, 45]] };
    let elements = [1usize, 5, 36];
    let group = [0usize, 1, 3];
    let smooth = [0usize, 1, 4];
    let material = [0usize, 2, 5];
    let radix = [3, counts[0].len() as u64, counts[1].len() as u64, counts[2].len() as u64, elements.len() as u64, 3, 3, 3, 3, 4, 2];
    Space::new(
        "meshes",
        format!(
            "all files of 1 to 3 objects with {:?} vertices, {:?} texture vertices and {:?} normals (other numbers in each object), {:?} elements of 4 kinds with absolute, relative or mixed indices, after or amid the data, and group, smoothing and material statements never or every 1 to 5 elements",
            counts[0], counts[1], counts[2], elements
        ),
        product(&radix),
        move |i, out| {
            let [objects, nv, nt, nn, ne, pg, ps, pm, indices, kinds, amid] = digits(i, radix);
            let mut base = [0i64; 3];
            let mut serial = 0usize;
            for object in 0..=objects {
                if object > 0 || (nv + nt) % 2 == 0 {
                    let _ = writeln!(out, "o object{}", object);
                }
                let size: [i64; 3] = std::array::from_fn(|k| {
                    let at = [nv, nt, nn][k] + object * (k + 1);
                    counts[k][at % counts[k].len()] as i64
                });
                let mut defined = [0i64; 3];
                let define = |upto: [i64; 3], defined: &mut [i64; 3], out: &mut String| {
                    for k in 0..3 {
                        while defined[k] < upto[k] {
                            let n = base[k] + defined[k];
                            let _ = match k {
                                0 => writeln!(out, "v {} {}.5 -{}", n, n, n),
                                1 => writeln!(out, "vt {}.25 {}", n, n),
                                _ => writeln!(out, "vn {} 0.{} -1", n, n),
                            };
                            defined[k] += 1;
                        }
                    }
                };
                let total = elements[(ne + object) % elements.len()];
                for e in 0..total {
                    if e == 0 && amid == 1 {
                        define([(size[0] + 1) / 2, (size[1] + 1) / 2, (size[2] + 1) / 2], &mut defined, out);
                    } else if amid == 0 || e == total / 2 {
                        define(size, &mut defined, out);
                    }
                    serial += 1;
                    if group[pg] > 0 && e % group[pg] == group[pg] - 1 {
                        let _ = match serial % 4 {
                            0 => writeln!(out, "g"),
                            1 => writeln!(out, "g a{} b", serial),
                            _ => writeln!(out, "g c{}", e),
                        };
                    }
                    if smooth[ps] > 0 && e % smooth[ps] == 0 {
                        let _ = if serial % 3 == 0 { writeln!(out, "s off") } else { writeln!(out, "s {}", serial) };
                    }
                    if material[pm] > 0 && e % material[pm] == 0 {
                        let _ = writeln!(out, "usemtl m{}", serial % 7);
                    }
                    let kind = if kinds == 3 { e % 3 } else { kinds };
                    let (word, n) = [("f", 3 + e % 3), ("l", 2 + e % 3), ("p", 1 + e % 3)][kind];
                    let form = if kind == 2 { 0 } else { [0, 1, 2, 3][e % 4] & ((defined[1] > 0) as usize | ((defined[2] > 0) as usize) << 1) };
                    out.push_str(word);
                    for j in 0..n {
                        let at = |k: usize| {
                            let at = (e * 7 + j * 3 + k) as i64 % defined[k];
                            let relative = indices == 1 || (indices == 2 && (e + j + k) % 2 == 0);
                            if relative {
                                at - defined[k]
                            } else {
                                base[k] + at + 1
                            }
                        };
                        let _ = match form {
                            0 => write!(out, " {}", at(0)),
                            1 => write!(out, " {}/{}", at(0), at(1)),
                            2 => write!(out, " {}//{}", at(0), at(2)),
                            _ => write!(out, " {}/{}/{}", at(0), at(1), at(2)),
                        };
                    }
                    out.push('\n');
                }
                define(size, &mut defined, out);
                for k in 0..3 {
                    base[k] += size[k];
                }
            }
        },
    )
}

/// Whole material files: numbers of materials and of the statements in each.
pub fn mtl_meshes(rich: bool) -> Space {
    let all = ["Ka", "Kd", "Ks", "Ke", "d", "Ns", "Ni", "illum", "map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_d", "map_Bump", "bump", "disp", "decal"];
    let materials: &'static [usize] = if rich { &[1, 2, 3, 5, 20, 150] } else { &[1, 2, 3, 5, 40] };
    let k = all.len() as u64;
    // Statements start + step * j for j < n, with the step counted on per material.
    let radix = [materials.len() as u64, k, k, 12, 3];
    Space::new(
        "mtl/meshes",
        format!("files of {:?} materials with 0 to 11 statements each, from every first statement on in every step through the list of all {}, and in 3 layouts", materials, k),
        product(&radix),
        move |i, out| {
            let [m, start, step, n, layout] = digits(i, radix);
            let end = ["\n", "\r\n", " # c\n\n"][layout];
            for material in 0..materials[m] {
                let _ = write!(out, "newmtl m{}{}", material, end);
                for j in 0..n {
                    let s = all[(start + (step + material) * j + material) % all.len()];
                    let value = material * 13 + j;
                    let _ = match s {
                        "Ka" | "Kd" | "Ks" | "Ke" => write!(out, "{} {} {}.5 -{}{}", s, value, value, j, end),
                        "d" | "Ns" | "Ni" => write!(out, "{} {}.25{}", s, value, end),
                        "illum" => write!(out, "illum {}{}", value % 3, end),
                        _ => write!(out, "{} t{}.png{}", s, value, end),
                    };
                }
            }
        },
    )
}

/// All words over the ASCII characters up to a length, as names.
fn ascii(max: u32) -> Space {
    let words = words_up_to(128, max) - 1;
    Space::new("", format!("all words of 1 to {} ASCII characters", max), words, |i, out| {
        let mut letters = Vec::new();
        word(i + 1, 128, &mut letters);
        out.extend(letters.iter().map(|&l| l as u8 as char));
    })
}

pub fn ascii_names(max: u32) -> Space {
    framed("ascii-names", &o::NAME_FRAMES, ascii(max))
}

pub fn mtl_ascii_names(max: u32) -> Space {
    framed("mtl/ascii-names", &m::NAME_FRAMES, ascii(max))
}

/// Every scalar value in comments of every kind.
pub fn scalar_comments() -> Space {
    Space::new("scalar-comments", "every Unicode scalar value in comments on their own, after words and at the end", 0x110000 - 0x800, |i, out| {
        let c = o::scalar(i);
        let _ = write!(out, "#{c}\no a#{c}p 9\nv 1 2 3 # x{c}y\n# {c} v 1 2 3\np 1#{c}");
    })
}

pub fn mtl_scalar_comments() -> Space {
    Space::new("mtl/scalar-comments", "every Unicode scalar value in comments on their own, after words and at the end", 0x110000 - 0x800, |i, out| {
        let c = o::scalar(i);
        let _ = write!(out, "#{c}\nnewmtl a#{c}d 9\nKa 1 2 3 # x{c}y\n# {c} Ka 1 2 3\nd 0.5#{c}");
    })
}

/// Number literals as products of their parts.
fn literal_words() -> Space {
    let signs = ["", "-", "+"];
    let integers = ["", "0", "1", "7", "10", "99", "007", "123456789", "9007199254740993", "18446744073709551616", "340282350000000000"];
    let fractions = ["", ".", ".0", ".5", ".25", ".1", ".125", ".50", ".000001", ".999999999999999999", ".30000000000000004", ".123456"];
    let exponents = ["", "e0", "e1", "E2", "e+3", "e-4", "e05", "e-010", "E+007", "e22", "e-22", "e38", "e-45", "e300", "e-320", "e", "e+", "E-", "e1.5", "f"];
    let radix = [signs.len() as u64, integers.len() as u64, fractions.len() as u64, exponents.len() as u64];
    Space::new("", format!("all words of {} signs, {} integer parts, {} fractions and {} exponents", radix[0], radix[1], radix[2], radix[3]), product(&radix), move |i, out| {
        let [s, n, f, e] = digits(i, radix);
        out.push_str(signs[s]);
        out.push_str(integers[n]);
        out.push_str(fractions[f]);
        out.push_str(exponents[e]);
    })
}

pub fn literals() -> Space {
    framed("literals", &o::NUMBER_FRAMES, literal_words())
}

pub fn mtl_literals() -> Space {
    framed("mtl/literals", &m::NUMBER_FRAMES, literal_words())
}

/// Words that other readers of these formats, or other formats, know.
const FOREIGN: [&str; 123] = [
    "on", "On", "ON", "true", "True", "yes", "no", "none", "None", "null", "nil", "auto", "default", "off", "Off", "OFF", "oFF", "offf", "of", "off0", "0off", "0x1", "1.0", "2.0", "-0", "+0", "+1", "01", "1e0", "1.", "--", "-",
    "/", "//", "1/", "/1", "1/1", "1//1", "1/1/1", "-1", "0", "1", "9", "\"a\"", "'a'", "a,b", "1,2", "1;2", ";", ",", "*", "end", "call", "csh", "-blendu", "-s", "-o", "-mm", "-bm", "-clamp", "-halo", "spectral", "xyz", "a.png", "o", "O", "v", "V",
    "f", "F", "fo", "g", "G", "s", "S", "p", "P", "l", "L", "vt", "VT", "vn", "vp", "usemtl", "UseMtl", "mtllib", "newmtl", "Newmtl", "NEWMTL", "usemap", "maplib", "lod", "bevel", "d_interp", "illum", "Ka", "KA", "ka", "Kd", "Ks", "Ke", "Tr", "Tf", "D", "d",
    "ns", "Ns", "Ni", "refl", "map_Tr", "map_kd", "MAP_KD", "map_bump", "Bump", "BUMP", "norm", "Pr", "map_Pr", "sharpness", "map_aat", "\u{feff}v", "v\u{feff}", "w",
];

fn foreign() -> Space {
    let k = FOREIGN.len() as u64;
    Space::new("", format!("all sequences of 1 or 2 of {} words that other readers or formats know", k), words_up_to(k, 2) - 1, move |i, out| {
        let mut letters = Vec::new();
        word(i + 1, k, &mut letters);
        for (n, l) in letters.into_iter().enumerate() {
            out.push_str(if n > 0 { " " } else { "" });
            out.push_str(FOREIGN[l]);
        }
    })
}

pub fn foreign_words() -> Space {
    framed("foreign-words", &word_frames(), foreign())
}

pub fn mtl_foreign_words() -> Space {
    framed("mtl/foreign-words", &mtl_word_frames(), foreign())
}

/// Comments with every short body, before and after statements that are
/// faulty and ones that are not, and lines left empty.
const COMMENT_FRAMES: [&str; 14] = [
    "#@\n\nzz\n",
    "#@\r\n\r\nzz\r\n",
    "#@\r\rzz",
    "\n\n#@\n\nv 1 2 x\n",
    "o a#@\n\n\nv 1 2\n",
    "v 1 2 3 #@\n\np 2\n",
    "v 1 2 3\np 1 #@\n#@\n\nf 1 1\n",
    "mtllib a #@\n#@\n\nmtllib b\ns x\n",
    "v 1 2 3 #@\r\n\r\ng a\r\n #@\r\n\r\np 1\r\nzz",
    "usemtl m#@\ns 1 #@\n\nusemtl",
    "#@\n\no a\nv 1 2 3\np 1\n#@\n\n#@",
    "#@\n# b\n#@\n\no a\n#@\nv 1 2 3\n\n#@\np 1\n",
    "v 1 2 #@\n",
    "f #@\n\nzz",
];
const MTL_COMMENT_FRAMES: [&str; 10] = [
    "#@\n\nzz\n",
    "#@\r\n\r\nnewmtl a\r\nzz\r\n",
    "#@\r\rnewmtl a\r\rd x",
    "newmtl a#@\n\n\nd\n",
    "newmtl a\nKa 1 2 3 #@\n\nKa 1 2\n",
    "newmtl a\nd 1 #@\n#@\n\nillum 3\n",
    "newmtl a\nbump x#@\r\n #@\r\n\r\nzz",
    "#@\n\nnewmtl a\nd 0.5\n#@\n\n#@",
    "newmtl a\n#@\n# b\n#@\n\nmap_Kd x\n#@\nNs 4\n\n#@\nnewmtl b\n",
    "newmtl #@\n",
];

fn short_bodies(ascii: u32, marks: u32) -> Space {
    const MARKS: [&str; 14] = ["!", "#", "\\", "/", "*", " ", "\t", "v", "o", "\"", "'", "-", "{", "é"];
    let plain = words_up_to(128, ascii);
    let k = MARKS.len() as u64;
    Space::new("", format!("all bodies of at most {} ASCII characters and of at most {} of {:?}", ascii, marks, MARKS), plain + words_up_to(k, marks), move |i, out| {
        let mut letters = Vec::new();
        if i < plain {
            word(i, 128, &mut letters);
            out.extend(letters.iter().map(|&l| l as u8 as char));
        } else {
            word(i - plain, k, &mut letters);
            for l in letters {
                out.push_str(MARKS[l]);
            }
        }
    })
}

pub fn comment_lines(marks: u32) -> Space {
    framed("comment-lines", &COMMENT_FRAMES, short_bodies(2, marks))
}

pub fn mtl_comment_lines(marks: u32) -> Space {
    framed("mtl/comment-lines", &MTL_COMMENT_FRAMES, short_bodies(2, marks))
}

/// After something large, everything small.
pub fn after_many(deep: bool) -> Space {
    let skip = ["fault", "mixed forms", "out of range", "unknown", "decremented"];
    let counts: &[usize] = if deep { &[5, 20, 45, 70, 130, 300, 1100] } else { &[20, 45, 130, 300] };
    let mut first = Vec::new();
    for (name, text) in o::dimensions() {
        if !skip.iter().any(|s| name.contains(s)) {
            first.extend(counts.iter().map(|&n| text(n)));
        }
    }
    let joins = ["", "o z\n", "o z\nv 7 8 9 0.5\nvt 4 5 6\nvn 7 8 9\n"];
    let tails = [
        "v 1.5 2.5 3.5", "v 1 2 3 4", "vt 4.5", "vt 4 5.5", "vt 4 5 6.5", "vn 7 8 9.5", "p -1", "p -1 -1", "l -1 -1 -1", "l -1/-1 -1/-1", "l -1//-1 -1//-1", "f -1 -1 -1 -1", "f -1/-1 -1/-1 -1/-1", "f -1//-1 -1//-1 -1//-1",
        "f -1/-1/-1 -1/-1/-1 -1/-1/-1", "g", "g y", "g y z", "s 3", "s off", "usemtl q", "o y", "p 1", "p 0",
    ];
    let radix = [first.len() as u64, joins.len() as u64, words_up_to(tails.len() as u64, 2)];
    Space::new(
        "after-many",
        format!("{} large beginnings ({:?} of each of {} things), the same object or another one, and all sequences of at most 2 of {} statements", radix[0], counts, radix[0] as usize / counts.len(), tails.len()),
        product(&radix),
        move |i, out| {
            let [a, b, c] = digits(i, radix);
            out.push_str(&first[a]);
            if !out.ends_with(|c| c == '\n' || c == '\r') {
                out.push('\n');
            }
            out.push_str(joins[b]);
            let mut letters = Vec::new();
            word(c as u64, tails.len() as u64, &mut letters);
            for l in letters {
                out.push_str(tails[l]);
                out.push('\n');
            }
        },
    )
}

pub fn mtl_after_many(deep: bool) -> Space {
    let counts: &[usize] = if deep { &[5, 20, 45, 70, 130, 300, 1100] } else { &[20, 45, 130, 300] };
    let mut first = Vec::new();
    for (name, text) in m::dimensions() {
        if !["fault", "unknown", "illumination"].iter().any(|s| name.contains(s)) {
            first.extend(counts.iter().map(|&n| text(n)));
        }
    }
    let joins = ["", "newmtl z\n", "newmtl m\n"];
    let radix = [first.len() as u64, joins.len() as u64, words_up_to(m::STATEMENTS.len() as u64, 2)];
    Space::new(
        "mtl/after-many",
        format!("{} large beginnings ({:?} of each of {} things), the same material or another one, and all sequences of at most 2 of {} statements", radix[0], counts, radix[0] as usize / counts.len(), m::STATEMENTS.len()),
        product(&radix),
        move |i, out| {
            let [a, b, c] = digits(i, radix);
            out.push_str(&first[a]);
            if !out.ends_with(|c| c == '\n' || c == '\r') {
                out.push('\n');
            }
            out.push_str(joins[b]);
            let mut letters = Vec::new();
            word(c as u64, m::STATEMENTS.len() as u64, &mut letters);
            let mut counter = 0;
            for l in letters {
                m::emit(m::STATEMENTS[l], &mut counter, out);
                out.push('\n');
            }
        },
    )
}

/// Names and numbers that change, stay and return, with elements between.
pub fn alternations(depth: u32) -> Space {
    let kinds: [[&str; 3]; 5] = [
        ["g a", "g b", "g c"],
        ["s 1", "s 2", "s 3"],
        ["usemtl a", "usemtl b", "usemtl c"],
        ["g a\nusemtl a", "g b\ns 2\nusemtl b", "g a b\ns 1\nusemtl c"],
        ["o a\nv 1 0 0", "o b\nv 2 0 0\nv 3 0 0", "o c"],
    ];
    // Elements after the statement with this number.
    let between: [fn(usize) -> usize; 4] = [|_| 1, |_| 2, |k| k % 2, |k| (k + 1) % 3];
    let radix = [kinds.len() as u64, between.len() as u64, words_up_to(3, depth)];
    Space::new(
        "alternations",
        format!("group, smoothing, material and object statements and mixtures: all sequences of at most {} over 3 names, with 4 patterns of elements between", depth),
        product(&radix),
        move |i, out| {
            let [k, b, w] = digits(i, radix);
            let mut letters = Vec::new();
            word(w as u64, 3, &mut letters);
            out.push_str("v 1 2 3\n");
            let mut defined = true;
            for (n, l) in letters.into_iter().enumerate() {
                out.push_str(kinds[k][l]);
                out.push('\n');
                if k == 4 {
                    defined = l != 2;
                }
                if defined {
                    for _ in 0..between[b](n) {
                        out.push_str("p -1\n");
                    }
                }
            }
        },
    )
}

/// Values of materials that change, stay and return.
pub fn mtl_alternations(depth: u32) -> Space {
    let kinds: [[&str; 3]; 5] = [
        ["newmtl a\nd 0.5", "newmtl b\nKa 1 2 3\nmap_Ka x", "newmtl a"],
        ["Ka 1 2 3", "Ka 3 2 1", "Kd 1 2 3"],
        ["map_Ka a", "map_Ka b", "bump a"],
        ["d 1", "Ns 1", "Ni 1"],
        ["illum 0", "illum 1", "illum 2\nnewmtl c"],
    ];
    let radix = [kinds.len() as u64, words_up_to(3, depth)];
    Space::new("mtl/alternations", format!("all sequences of at most {} over 3 statements, of materials, colours, maps, scalars and models", depth), product(&radix), move |i, out| {
        let [k, w] = digits(i, radix);
        let mut letters = Vec::new();
        word(w as u64, 3, &mut letters);
        out.push_str("newmtl x\n");
        for l in letters {
            out.push_str(kinds[k][l]);
            out.push('\n');
        }
    })
}

/// Files that are made of the same bytes.
pub fn permutations() -> Space {
    let lines = ["v 1 2 3", "v 3 2 1", "p 1", "g a b", "g b a"];
    let mut texts = Vec::new();
    let radix = [lines.len() as u64; 4];
    for i in 0..product(&radix) {
        let mut text = String::from("v 1 2 3\n");
        for l in digits(i, radix) {
            text += lines[l];
            text.push('\n');
        }
        texts.push(text);
    }
    texts.sort_by_key(|t| t.bytes().map(|b| b as u64).sum::<u64>());
    Space::list("permutations", format!("all files of 4 of {:?}", lines), texts)
}

pub fn mtl_permutations() -> Space {
    let lines = ["Ka 1 2 3", "Ka 3 2 1", "Kd 1 2 3", "newmtl b", "bump ab", "bump ba"];
    let mut texts = Vec::new();
    let radix = [lines.len() as u64; 3];
    for i in 0..product(&radix) {
        let mut text = String::from("newmtl a\n");
        for l in digits(i, radix) {
            text += lines[l];
            text.push('\n');
        }
        texts.push(text);
    }
    Space::list("mtl/permutations", format!("all files of 3 of {:?}", lines), texts)
}

const SHAPES: [&str; 8] = ["", " 1", " 60", " 1 1", " 0.5 0.5 0.5", " a.png", " -1 -1 -1 -1", " on"];

/// Statements that are faulty or that other readers know, in the midst of
/// files with all combinations of features.
pub fn rich_faults() -> Space {
    let mut statements: Vec<String> = o::FAULTS.iter().map(|s| s.to_string()).collect();
    for w in FOREIGN {
        statements.extend(SHAPES.iter().map(|s| format!("{}{}", w, s)));
    }
    statements.sort();
    statements.dedup();
    let libraries = ["", "mtllib l\n"];
    let object = ["", "o z\nv 9 9 9\nvt 9\nvn 9 9 9\np 1\no a\n"];
    let vertices = ["v 1 2 3\nv 1 2 4\nv 1 2 5\n", "v 1 2 3 0.5\n"];
    let textures = ["", "vt 1\nvt 1 2 3\n"];
    let normals = ["", "vn 1 2 3\nvn 1 2 4\n"];
    let groups = ["", "g a\n", "g a b\n"];
    let smoothing = ["", "s 1\n", "s off\n"];
    let material = ["", "usemtl m\n"];
    let elements = ["", "p -1\n", "l -1 -1\n", "f -1 -1 -1\n"];
    let after = ["\n", "\nv 7 8 9\np -1\n"];
    let n = statements.len() as u64;
    let radix = [2, 2, 2, 2, 2, 3, 3, 2, 4, 2, n];
    Space::new(
        "rich-faults",
        format!("{} faulty statements and statements that other readers know, after all combinations of features (libraries, objects, vertices, texture vertices, normals, groups, smoothing, material, elements: {} contexts), with and without more after them", n, product(&radix) / n / 2),
        product(&radix),
        move |i, out| {
            let [a, b, c, d, e, f, g, h, j, k, l] = digits(i, radix);
            for part in [libraries[a], object[b], vertices[c], textures[d], normals[e], groups[f], smoothing[g], material[h], elements[j], &statements[l], after[k]] {
                out.push_str(part);
            }
        },
    )
}

/// The same for materials.
pub fn mtl_rich_faults() -> Space {
    let mut statements: Vec<String> = m::FAULTS.iter().map(|s| s.to_string()).collect();
    for w in FOREIGN {
        if w != "Tf" {
            statements.extend(SHAPES.iter().map(|s| format!("{}{}", w, s)));
        }
    }
    statements.sort();
    statements.dedup();
    let before = ["", "newmtl z\nKa 1 1 1\nd 0.5\nmap_Ka z\n"];
    let ambient = ["", "Ka 0.5 0.25 1\n"];
    let others = ["", "Kd 1 0.5 2\nKs 1 1 1\n"];
    let emission = ["", "Ke 1 0 0\n"];
    let dissolve = ["", "d 0.5\n", "d 1\n"];
    let exponent = ["", "Ns 96.5\n"];
    let density = ["", "Ni 1.5\n"];
    let model = ["", "illum 0\n", "illum 2\n"];
    let maps = ["", "map_Kd a.png\n", "map_Ka a\nmap_d b\nmap_Ns c\n"];
    let bumps = ["", "bump b.png\n", "disp d\ndecal e\n"];
    let after = ["\n", "\nNi 3\nnewmtl y\n"];
    let n = statements.len() as u64;
    let radix = [2, 2, 2, 2, 3, 2, 2, 3, 3, 3, 2, n];
    Space::new(
        "mtl/rich-faults",
        format!("{} faulty statements and statements that other readers know, after all combinations of properties ({} contexts), with and without more after them", n, product(&radix) / n / 2),
        product(&radix),
        move |i, out| {
            let [a, b, c, d, e, f, g, h, j, k, l, s] = digits(i, radix);
            for part in [before[a], "newmtl m\n", ambient[b], others[c], emission[d], dissolve[e], exponent[f], density[g], model[h], maps[j], bumps[k], &statements[s], after[l]] {
                out.push_str(part);
            }
        },
    )
}

/// One of 648 layouts of a text of words, single blanks and line feeds.
fn lay_out(text: &str, layout: u64, out: &mut String) {
    let [blank, end, indent, comment, lines, open] = digits(layout, LAYOUT_AXES);
    let gap = [" ", "  ", "\t", "\t \\"][blank];
    let end = ["\n", "\r\n", "\r"][end];
    let indent = ["", " ", "\t\\"][indent];
    if lines == 1 {
        out.push_str(end);
        out.push_str("# \n\n");
    }
    for (n, line) in text.lines().enumerate() {
        out.push_str(indent);
        for (k, w) in line.split(' ').enumerate() {
            if k > 0 {
                out.push_str(gap);
            }
            out.push_str(w);
        }
        match comment {
            1 if n % 2 == 0 => out.push_str(" # v 1 2 3 é"),
            2 => {
                out.push_str("#");
                out.push_str(end);
                out.push_str("# o x");
            }
            _ => {}
        }
        out.push_str(end);
        if lines == 2 {
            out.push_str(end);
            if n % 3 == 0 {
                out.push_str(" ");
                out.push_str(end);
            }
        }
    }
    if open == 1 {
        while out.ends_with(|c| c == '\n' || c == '\r' || c == ' ') {
            out.pop();
        }
    }
}
/// One of 36 layouts.
pub fn lay_out_as(text: &str, blank: u64, end: u64, lines: u64, out: &mut String) {
    // Blanks, line ends and empty lines as given, the others along with them.
    let chosen = [blank, end, (blank + lines) % 3, (lines + end) % 3, lines, (blank + end) % 2];
    let mut layout = 0;
    for (digit, radix) in chosen.iter().zip(LAYOUT_AXES) {
        layout = layout * radix + digit;
    }
    lay_out(text, layout, out)
}

const LAYOUT_AXES: [u64; 6] = [4, 3, 3, 3, 3, 2];
/// A style is a layout with one of 4 styles of names and 5 of numbers.
const ALL_STYLES: u64 = 648 * 4 * 5;
/// The styles are dealt out in turn; a step modulo a prime keeps them from
/// going along with any choice of content.
const STYLE_STEP: (u64, u64) = (6007, 12967);

fn style(turn: u64) -> (u64, usize, usize) {
    let [layout, names, numbers] = digits(turn % STYLE_STEP.1 * STYLE_STEP.0 % STYLE_STEP.1 % ALL_STYLES, [648, 4, 5]);
    (layout as u64, names, numbers)
}

/// A number in one of five styles.
fn number(style: usize, k: usize, out: &mut String) {
    let _ = match style {
        0 => write!(out, "{}", k),
        1 => write!(out, "+{}.5", k),
        2 => write!(out, "-{}.{}e{}", k % 10, k, k % 3),
        3 => write!(out, "{}{}E{}", ["+", "-", ""][k % 3], k % 7, ["+1", "-2", "2"][k / 3 % 3]),
        _ => write!(out, "{}.1234567890123{}", k, k),
    };
}

fn name(style: usize, k: usize, out: &mut String) {
    let _ = match style {
        0 => write!(out, "n{}", k % 3),
        1 => write!(out, "{}Name.{}", ["A", "b", "C"][k % 3], k % 2),
        2 => write!(out, "né{}日", k % 3),
        _ => write!(out, "{}{}", "long-name_".repeat(10), k % 3),
    };
}

const CROSS_FAULTS: [&str; 5] = ["zz 1\n", "v 1 2\n", "f 1 x 1\n", "usemtl\n", "p 99999\n"];

/// Files with every combination of contents, in layouts taken in turn.
pub fn crossed(styles: u64, faulty: bool) -> Space {
    let radix: [u64; 11] = [styles, 3, 4, 3, 4, 2, 4, 4, 3, 2, if faulty { 2 * CROSS_FAULTS.len() as u64 } else { 1 }];
    Space::new(
        if faulty { "crossed/faulty" } else { "crossed" },
        format!(
            "files with every combination of 0 to 2 libraries, 1 to 3 objects, named or not, with 1, 3 or 20 items of 1 to 3 kinds, weights or not, 4 densities of grouping, smoothing and material statements, points, lines, faces or all, absolute, relative or mixed indices, lines repeated or not{}: each in {} of {} styles (layouts, names, numbers), taken in turn",
            if faulty { ", and one of 5 faulty statements after the first object's data or at the end" } else { "" },
            styles,
            ALL_STYLES
        ),
        product(&radix),
        move |i, out| {
            let [_, libraries, objects, size, kinds, weights, state, elements, indices, repeats, fault] = digits(i, radix);
            let (layout, names, numbers) = style(i);
            let mut text = String::new();
            for k in 0..libraries {
                text.push_str("mtllib ");
                name(names, k, &mut text);
                text.push_str(if k == 1 { " l.mtl\n" } else { "\n" });
            }
            let size = [1usize, 3, 20][size];
            let mut base = [0usize; 3];
            let mut serial = 0;
            for object in 0..[1, 1, 2, 3][objects] {
                if objects != 0 && (objects != 2 || object > 0) {
                    text.push_str("o ");
                    name(names, object, &mut text);
                    text.push('\n');
                }
                let defined = [size + object, if kinds & 1 != 0 { size + 2 } else { 0 }, if kinds & 2 != 0 { size + 1 } else { 0 }];
                let line = |text: &mut String, from: usize| {
                    text.push('\n');
                    if repeats == 1 {
                        text.extend_from_within(from..);
                    }
                };
                for (kind, word) in ["v", "vt", "vn"].iter().enumerate() {
                    let mut k = 0;
                    while k < defined[kind] {
                        let from = text.len();
                        text.push_str(word);
                        let components = match kind {
                            0 if weights == 1 && k % 2 == 0 => 4,
                            1 => 1 + k % 3,
                            _ => 3,
                        };
                        for c in 0..components {
                            text.push(' ');
                            number(numbers, 3 * k + c, &mut text);
                        }
                        // A repeated line defines two items.
                        line(&mut text, from);
                        k += 1 + repeats;
                    }
                }
                let defined = defined.map(|n| if repeats == 1 { n.div_ceil(2) * 2 } else { n });
                if faulty && fault % 2 == 0 && object == 0 {
                    text.push_str(CROSS_FAULTS[fault / 2]);
                }
                for e in 0..if size == 20 { 20 } else { 2 + size } {
                    serial += 1;
                    let every = [1000, 1000, 2, 1][state];
                    if (state == 1 && e == 0) || e % every == every - 1 {
                        text.push_str("g");
                        for k in 0..(serial + state) % 4 {
                            text.push(' ');
                            name(names, serial + k, &mut text);
                        }
                        text.push('\n');
                        if serial % 3 == 0 {
                            text.push_str("s off\n");
                        } else {
                            let _ = write!(text, "s {}\n", serial);
                        }
                        text.push_str("usemtl ");
                        name(names, serial, &mut text);
                        text.push('\n');
                    }
                    let from = text.len();
                    let which = if elements == 3 { e % 3 } else { elements };
                    text.push_str(["p", "l", "f"][which]);
                    let form = if which == 0 { 0 } else { kinds & [3, 3, 1, 2, 0][e % 5] };
                    for c in 0..[1, 2, 3][which] + e % 2 {
                        let at = |kind: usize| {
                            let k = (e * 5 + c * 2 + kind) % defined[kind];
                            let relative = indices == 1 || indices == 2 && (e + c + kind) % 2 == 0;
                            if relative {
                                k as i64 - defined[kind] as i64
                            } else {
                                (base[kind] + k + 1) as i64
                            }
                        };
                        let _ = match form {
                            0 => write!(text, " {}", at(0)),
                            1 => write!(text, " {}/{}", at(0), at(1)),
                            2 => write!(text, " {}//{}", at(0), at(2)),
                            _ => write!(text, " {}/{}/{}", at(0), at(1), at(2)),
                        };
                    }
                    line(&mut text, from);
                }
                for kind in 0..3 {
                    base[kind] += defined[kind];
                }
            }
            if faulty && fault % 2 == 1 {
                text.push_str(CROSS_FAULTS[fault / 2]);
            }
            lay_out(&text, layout, out);
        },
    )
}

const CROSS_MTL_FAULTS: [&str; 5] = ["zz 1\n", "Ka 1 2\n", "illum 3\n", "newmtl\n", "d x\n"];

/// Material files with every pair of statements in every combination with
/// styles, numbers of materials and repetitions, in layouts taken in turn.
pub fn mtl_crossed(styles: u64, faulty: bool) -> Space {
    let all = ["Ka", "Kd", "Ks", "Ke", "d", "Ns", "Ni", "illum", "map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_d", "map_Bump", "bump", "disp", "decal"];
    let k = all.len() as u64;
    let radix: [u64; 7] = [styles, 4, k, k, 3, 2, if faulty { 2 * CROSS_MTL_FAULTS.len() as u64 } else { 1 }];
    Space::new(
        if faulty { "mtl/crossed/faulty" } else { "mtl/crossed" },
        format!(
            "files with every combination of 1, 2, 3 or 22 materials, every pair of {} statements, alone, with 4 or with all others, lines repeated or not{}: each in {} of {} styles (layouts, names, numbers), taken in turn",
            k,
            if faulty { ", and one of 5 faulty statements in the first material or at the end" } else { "" },
            styles,
            ALL_STYLES
        ),
        product(&radix),
        move |i, out| {
            let [_, materials, a, b, more, repeats, fault] = digits(i, radix);
            let (layout, names, numbers) = style(i);
            let mut text = String::new();
            for material in 0..[1, 2, 3, 22][materials] {
                text.push_str("newmtl ");
                name(names, material, &mut text);
                text.push('\n');
                let statement = |s: usize, value: usize, text: &mut String| {
                    let from = text.len();
                    text.push_str(all[s]);
                    match s {
                        0..=3 => {
                            for c in 0..3 {
                                text.push(' ');
                                number(numbers, value + c, text);
                            }
                        }
                        4..=6 => {
                            text.push(' ');
                            number(numbers, value, text);
                        }
                        7 => {
                            let _ = write!(text, " {}", value % 3);
                        }
                        _ => {
                            text.push(' ');
                            name(names, value, text);
                        }
                    }
                    text.push('\n');
                    if repeats == 1 {
                        text.extend_from_within(from..);
                    }
                };
                statement(a, material, &mut text);
                for other in 0..[0, 4, all.len()][more] {
                    statement((other * 5 + a + material) % all.len(), material + other, &mut text);
                }
                if material % 2 == 0 {
                    statement(b, material + 1, &mut text);
                }
                if faulty && fault % 2 == 0 && material == 0 {
                    text.push_str(CROSS_MTL_FAULTS[fault / 2]);
                }
            }
            if faulty && fault % 2 == 1 {
                text.push_str(CROSS_MTL_FAULTS[fault / 2]);
            }
            lay_out(&text, layout, out);
        },
    )
}

/// A word and one that differs from it in one place.
fn near(base: usize, n: usize, at: usize, change: usize) -> (String, String) {
    let a: Vec<u8> = (0..n)
        .map(|k| match base {
            0 => b'a' + (k * 7 % 26) as u8,
            1 => b'x',
            2 => b'1' + (k * 7 % 9) as u8,
            _ if k == n / 2 && n > 1 => b'.',
            _ => b'1' + (k * 4 % 9) as u8,
        })
        .collect();
    let mut b = a.clone();
    match change {
        0 if a[at] != b'.' => b[at] = if a[at] == b'9' { b'0' } else { a[at] + 1 },
        1 => b[at] = a[at].to_ascii_uppercase(),
        2 => b.swap(at, (at + 1) % n),
        3 if n > 1 => {
            b.remove(at);
        }
        4 => b.insert(at, a[at]),
        5 if base < 2 && at + 1 < n => b[at..at + 2].copy_from_slice("é".as_bytes()),
        _ => b[at] = b'0',
    }
    (String::from_utf8(a).unwrap(), String::from_utf8(b).unwrap())
}

fn near_words_in(name: &str, frames: Vec<(bool, &'static str)>) -> Space {
    // Frames for names take words of letters, those for numbers take digits.
    let frames: Vec<(usize, &'static str)> = frames.into_iter().flat_map(|(number, f)| if number { [(2, f), (3, f)] } else { [(0, f), (1, f)] }).collect();
    let mut places = Vec::new();
    for n in (1..=40).chain(63..=65).chain(127..=129).chain(255..=257) {
        places.extend((0..n).map(|at| (n, at)));
    }
    let radix = [places.len() as u64, 6, frames.len() as u64];
    Space::new(
        name,
        format!("two words of up to 257 characters that differ in one place: every length up to 40 and 9 more, every place, 6 changes, in {} frames", radix[2]),
        product(&radix),
        move |i, out| {
            let [p, change, f] = digits(i, radix);
            let (base, frame) = frames[f];
            let (a, b) = near(base, places[p].0, places[p].1, change);
            for ch in frame.chars() {
                match ch {
                    '@' => out.push_str(&a),
                    '&' => out.push_str(&b),
                    _ => out.push(ch),
                }
            }
        },
    )
}

pub fn near_words() -> Space {
    near_words_in(
        "near-words",
        vec![
            (false, "v 1 2 3\ng @ &\np 1\n"),
            (false, "v 1 2 3\ng @\np 1\ng &\np 1\ng @\np 1\n"),
            (false, "v 1 2 3\nusemtl @\np 1\nusemtl &\np 1\nusemtl @\np 1\n"),
            (false, "o @\nv 1 2 3\np 1\no &\nv 4 5 6\np -1\no @\n"),
            (false, "mtllib @ & @\n"),
            (false, "mtllib @\nmtllib &\no &\nv 1 2 3\ng @\nusemtl &\np 1\nusemtl @\np 1\n"),
            (true, "v @ & @\nv & @ &\n"),
            (true, "vt @ &\nvt &\nvn & @ &\n"),
            (true, "v 1 2 3\ns @\np 1\ns &\np 1\ns @\np 1\n"),
            (true, "v 1 2 3\np @ &\n"),
            (false, "v 1 2 3\n@\n"),
            (false, "v 1 2 3\ng @\nv 1 & 3\n"),
        ],
    )
}

pub fn mtl_near_words() -> Space {
    near_words_in(
        "mtl/near-words",
        vec![
            (false, "newmtl @\nnewmtl &\nnewmtl @\n"),
            (false, "newmtl @\nmap_Kd &\nmap_Ka @\nnewmtl &\nmap_Kd @\nmap_Ka &\n"),
            (false, "newmtl a\nbump @\ndisp &\ndecal @\nmap_d &\nmap_Ns @\nmap_Ke &\n"),
            (false, "newmtl a\nmap_Ks @\nnewmtl b\nmap_Ks &\nnewmtl c\nmap_Ks @\n"),
            (true, "newmtl a\nKa @ & @\nKd & @ &\nNs @\nd &\nNi @\n"),
            (true, "newmtl a\nillum @\nillum &\n"),
            (false, "newmtl @\n& 1\n"),
            (false, "newmtl @\nd &\n"),
        ],
    )
}
