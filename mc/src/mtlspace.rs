//! Spaces of MTL texts.

use crate::objspace::{counts, scalar, special_numbers, TRICKY};
use crate::space::*;
use std::fmt::Write;

/// Every property statement; `@` is replaced by fresh values.
pub const STATEMENTS: [&str; 21] = [
    "newmtl @n",
    "Ka @ @ @",
    "Kd @ @ @",
    "Ks @ @ @",
    "Ke @ @ @",
    "d @",
    "Ns @",
    "Ni @",
    "illum 0",
    "illum 1",
    "illum 2",
    "map_Ka @n",
    "map_Kd @n",
    "map_Ks @n",
    "map_Ke @n",
    "map_Ns @n",
    "map_d @n",
    "map_Bump @n",
    "bump @n",
    "disp @n",
    "decal @n",
];

pub fn emit(statement: &str, counter: &mut u64, out: &mut String) {
    let mut rest = statement;
    while let Some(at) = rest.find('@') {
        out.push_str(&rest[..at]);
        *counter += 1;
        if rest[at..].starts_with("@n") {
            let _ = write!(out, "n{}", counter);
            rest = &rest[at + 2..];
        } else {
            let _ = write!(out, "{}.1", counter);
            rest = &rest[at + 1..];
        }
    }
    out.push_str(rest);
    out.push('\n');
}

/// All sequences of statements up to a depth, after `newmtl`.
pub fn histories(depth: u32) -> Space {
    let k = STATEMENTS.len() as u64;
    Space::new(
        "mtl/histories",
        format!("all sequences of at most {} of {} statements after a newmtl statement", depth, k),
        words_up_to(k, depth),
        move |i, out| {
            let mut letters = Vec::new();
            word(i, k, &mut letters);
            let mut counter = 0;
            emit("newmtl @n", &mut counter, out);
            for l in letters {
                emit(STATEMENTS[l], &mut counter, out);
            }
        },
    )
}

/// All sequences, with or without anything before, of few statements.
pub fn deep_histories(depth: u32) -> Space {
    let few = ["newmtl @n", "Ka @ @ @", "illum 0", "map_Kd @n", "", "Ni @", "bump @n", "map_Bump @n", "# Kd 1 1 1", "illum 1"];
    let k = few.len() as u64;
    Space::new(
        "mtl/deep-histories",
        format!("all sequences of at most {} of {} statements", depth, k),
        words_up_to(k, depth),
        move |i, out| {
            let mut letters = Vec::new();
            word(i, k, &mut letters);
            let mut counter = 0;
            for l in letters {
                emit(few[l], &mut counter, out);
            }
        },
    )
}

/// Every pair of statements in two materials, on a full background.
pub fn carry_over() -> Space {
    let k = STATEMENTS.len() as u64;
    let radix = [k, k, k, 3];
    Space::new(
        "mtl/carry-over",
        "all triples of statements in the second of three materials, the first one having every property, three layouts",
        product(&radix),
        move |i, out| {
            let [a, b, c, m] = digits(i, radix);
            let mut counter = 0;
            for s in STATEMENTS {
                emit(s, &mut counter, out);
            }
            emit("newmtl @n", &mut counter, out);
            for s in [a, b, c] {
                emit(STATEMENTS[s], &mut counter, out);
            }
            emit("newmtl @n", &mut counter, out);
            emit(STATEMENTS[a], &mut counter, out);
            if m == 1 {
                let text = out.replace('\n', "\r\n\r\n").replace(' ', "\t ");
                out.clear();
                out.push_str(&text);
            } else if m == 2 {
                let text = out.replace('\n', "# c\r");
                out.clear();
                out.push_str(text.trim_end_matches("# c\r"));
            }
        },
    )
}

/// Which properties are stated, in file order and in reverse.
pub fn subsets() -> Space {
    let singles: Vec<usize> = (1..STATEMENTS.len()).filter(|&k| k != 8 && k != 9 && k != 18).collect();
    let n = singles.len() as u32;
    Space::new(
        "mtl/subsets",
        format!("all subsets of {} properties in a material between two others, in both orders", n),
        (1u64 << n) * 2,
        move |i, out| {
            let (bits, reverse) = (i >> 1, i & 1 == 1);
            let mut counter = 0;
            emit("newmtl @n", &mut counter, out);
            emit("illum 0", &mut counter, out);
            emit("newmtl @n", &mut counter, out);
            let mut chosen: Vec<usize> = singles.iter().enumerate().filter(|(k, _)| bits >> k & 1 == 1).map(|x| *x.1).collect();
            if reverse {
                chosen.reverse();
            }
            for s in chosen {
                emit(if s == 10 { "illum 1" } else { STATEMENTS[s] }, &mut counter, out);
            }
            emit("newmtl @n", &mut counter, out);
        },
    )
}

fn rep(n: usize, mut f: impl FnMut(usize) -> String) -> String {
    let mut s = String::new();
    for i in 0..n {
        s += &f(i);
    }
    s
}

pub fn dimensions() -> Vec<(&'static str, fn(usize) -> String)> {
    vec![
        ("materials", |n| rep(n, |i| format!("newmtl m{}\nKa {} 0 0\nmap_Kd f{}\nillum {}\n", i, i, i, i % 3))),
        ("empty materials", |n| rep(n, |i| format!("newmtl m{}\n", i))),
        ("equally named materials", |n| rep(n, |i| format!("newmtl m\nd 0.{}\n", i))),
        ("properties", |n| format!("newmtl m\n{}", rep(n, |i| format!("Ka {}.1 {}.2 {}.3\nNs {}\n", i, i, i, i)))),
        ("maps", |n| format!("newmtl m\n{}", rep(n, |i| format!("{} f{}\n", ["map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_d", "bump", "map_Bump", "disp", "decal"][i % 10], i)))),
        ("blank lines before", |n| format!("{}newmtl m\nd 0.5\n", "\n".repeat(n))),
        ("blank lines between", |n| format!("newmtl m\n{}d 0.5\n{}Ns 3\n", "\n".repeat(n), "\r\n".repeat(n))),
        ("blank lines after", |n| format!("newmtl m\nd 0.5\n{}newmtl n\n{}", "\r".repeat(n), "\n".repeat(n))),
        ("comment lines", |n| format!("newmtl m\n{}d 0.5\n", rep(n, |i| format!("# c {}\n", i)))),
        ("comment length", |n| format!("newmtl m # {}\nd 0.5#{}\n", "d".repeat(n), "x".repeat(n))),
        ("blanks", |n| format!("newmtl{} m\n{}Ka 1{} 2 3{}\n", " ".repeat(n), "\t".repeat(n), " ".repeat(n), "\\".repeat(n))),
        ("length of a material name", |n| format!("newmtl x{}\nd 0.5\n", "é".repeat(n))),
        ("length of a map name", |n| format!("newmtl x\nmap_Ka a{}\ndecal b{}\n", "b".repeat(n), "日".repeat(n))),
        ("length of an unknown statement", |n| format!("newmtl x\ny{}\n", "z".repeat(n))),
        ("digits", |n| format!("newmtl x\nKa 1{} 0.{}1 1e-{}\nNs 1.{}5\nillum {}1\n", "0".repeat(n), "0".repeat(n), n, "3".repeat(n), "0".repeat(n))),
        ("illumination model", |n| format!("newmtl x\nillum {}\n", n)),
        ("statements on one line", |n| format!("newmtl x {}\n", rep(n, |i| format!("d 0.{} Ns {} ", i, i)))),
        ("fault after lines", |n| format!("newmtl x\n{}Kd 1 2\n", rep(n, |i| format!("d {}\n", i)))),
        ("fault after blank lines", |n| format!("newmtl x\n{}zz\n", "\n".repeat(n))),
        ("fault after CRLF comments", |n| format!("newmtl x\n{}illum 3\n", "# c\r\n".repeat(n))),
        ("fault after CR lines", |n| format!("newmtl x\r{}map_Ka\r", "Ns 1\r".repeat(n))),
        ("fault after materials", |n| format!("{}newmtl\n", rep(n, |i| format!("newmtl m{}\nd 1\n\n", i)))),
        ("fault before materials", |n| format!("{}d 1\nnewmtl m\n", "\n".repeat(n))),
    ]
}

pub fn sizes(dense: usize, top: u32) -> Space {
    let dims = dimensions();
    let counts = counts(dense, top);
    let k = dims.len() as u64;
    Space::new(
        "mtl/sizes",
        format!("{} things that can repeat, each with every count <= {} and around powers of two up to 2^{}", k, dense, top),
        k * counts.len() as u64,
        move |i, out| out.push_str(&dims[(i % k) as usize].1(counts[(i / k) as usize])),
    )
}

pub const NUMBER_FRAMES: [&str; 17] = [
    "newmtl m\nKa @ 2.5 3.5\n",
    "newmtl m\nKa 1.5 @ 3.5\n",
    "newmtl m\nKa 1.5 2.5 @\n",
    "newmtl m\nKd @ 2.5 3.5\n",
    "newmtl m\nKd 1.5 @ 3.5\n",
    "newmtl m\nKd 1.5 2.5 @\n",
    "newmtl m\nKs @ 2.5 3.5\n",
    "newmtl m\nKs 1.5 @ 3.5\n",
    "newmtl m\nKs 1.5 2.5 @\n",
    "newmtl m\nKe @ 2.5 3.5\n",
    "newmtl m\nKe 1.5 @ 3.5\n",
    "newmtl m\nKe 1.5 2.5 @\n",
    "newmtl m\nd @\n",
    "newmtl m\nNs @\n",
    "newmtl m\nNi @\n",
    "newmtl m\nillum @\n",
    "newmtl m\nNi 5 @\nd 0.5\n",
];

pub fn number_words(max: u32) -> Space {
    framed("mtl/number-words", &NUMBER_FRAMES, fragments("", &["1", "0", ".", "-", "e", "9", "+", "E", "_"], max))
}

pub fn special_number_words() -> Space {
    framed("mtl/special-numbers", &NUMBER_FRAMES, Space::list("", "a table of special number words", special_numbers()))
}

pub fn decimals(count: u64) -> Space {
    Space::new("mtl/decimals", format!("the decimals 0.00000 to {}.00000 in steps of 1e-5 (six per text)", count / 100_000), count / 6, |i, out| {
        let w = |k: u64| {
            let n = i * 6 + k;
            format!("{}{}.{:05}", if k % 2 == 1 { "-" } else { "" }, n / 100_000, n % 100_000)
        };
        let _ = write!(out, "newmtl m\nKa {} {} {}\nd {}\nNs {}\nNi {}\n", w(0), w(1), w(2), w(3), w(4), w(5));
    })
}

/// Faulty statements within a material.
pub const FAULTS: [&str; 74] = [
    "newmtl", "newmtl a b", "newmtl a 1", "newmtl a newmtl", "Ka", "Ka 1", "Ka 1 2", "Ka x 2 3", "Ka 1 x 3", "Ka 1 2 x", "Ka 1 2 3 4", "Ka 1,2,3", "Ka spectral x.rfl", "Ka xyz 1 2 3", "Kd", "Kd 1 2",
    "Kd x 2 3", "Kd 1 2 3 4", "Ks", "Ks 1", "Ks 1 2 x", "Ks 1 2 3 4", "Ke", "Ke 1 2", "Ke 1 x 3", "Ke 1 2 3 4", "d", "d x", "d 1 2", "d -halo 1", "Tr 1", "Ns", "Ns x", "Ns 1 2", "Ni", "Ni x", "Ni 1 2",
    "illum", "illum x", "illum 3", "illum 10", "illum -1", "illum 1.0", "illum 1 2", "illum 99999999999999999999", "illum 18446744073709551616", "map_Ka", "map_Ka a b", "map_Ka -s 1 1 1 a", "map_Kd", "map_Kd a b", "map_Ks",
    "map_Ke", "map_Ns", "map_d", "map_Bump", "map_Bump -bm 1 a", "bump", "bump a b", "disp", "disp a b", "decal", "decal a 1", "map_bump a", "map_bump", "refl a", "ka 1 1 1", "KA 1 1 1", "KD 1 1 1", "NEWMTL a", "x", "v 1 2 3", "1", "é",
];

pub const BEFORE: [&str; 7] = [
    "newmtl m\n",
    "\n# c\n\nnewmtl m\n",
    "newmtl m\nKa 1 2 3\n",
    "newmtl m\r\nd 0.5\r\n\r\nnewmtl n\r\nmap_Ka a\r\n",
    "newmtl m # c\rillum 1\r\rNs 3\r",
    "",
    "newmtl m Ni 1 ",
];
pub const AFTER: [&str; 10] = ["", "\n", "\r\n", "\r", " \t\\ ", " # c", "#c\nd 1\n", "\n\nd 1\n", "\nx\n", "\n\n\nnewmtl z\nd 1\n"];

pub fn faults() -> Space {
    let radix = [FAULTS.len() as u64, BEFORE.len() as u64, AFTER.len() as u64];
    Space::new(
        "mtl/faults",
        format!("{} faulty statements, after {} beginnings, before {} ends", radix[0], radix[1], radix[2]),
        product(&radix),
        move |i, out| {
            let [f, b, a] = digits(i, radix);
            out.push_str(BEFORE[b]);
            out.push_str(FAULTS[f]);
            out.push_str(AFTER[a]);
        },
    )
}

pub fn fault_pairs() -> Space {
    let n = FAULTS.len() as u64;
    let between = ["\n", "\n\n# c\n", "\r", "\r\nd 1\r\n"];
    let radix = [n, n, between.len() as u64];
    Space::new("mtl/fault-pairs", "all pairs of faulty statements with 4 separators", product(&radix), move |i, out| {
        let [a, b, s] = digits(i, radix);
        out.push_str("newmtl m\n");
        out.push_str(FAULTS[a]);
        out.push_str(between[s]);
        out.push_str(FAULTS[b]);
        out.push('\n');
    })
}

pub fn fault_lines(depth: u32) -> Space {
    let kinds = ["\n", "\r\n", "\r", "#\n", "# x\r", " \\ \r\n", "d 1\n", "Ka 1 2 3 # b\r\n", "illum 2\r", "map_Ka x \n", "newmtl x\n", "newmtl y#\r\n"];
    let faults = ["zz\n", "Ka 1", "Ka 1 2\n", "d\r\n", "illum 7\r", "newmtl\n", "newmtl", "map_d\n", "d 1 2\n", "Ni x # c\n", "illum\n", "decal"];
    let k = kinds.len() as u64;
    let n = words_up_to(k, depth);
    let m = faults.len() as u64;
    Space::new(
        "mtl/fault-lines",
        format!("{} faults after all sequences of at most {} lines of {} kinds, with and without a material", m, depth, k),
        n * m * 2,
        move |i, out| {
            let mut letters = Vec::new();
            word(i / 2 / m, k, &mut letters);
            if i % 2 == 0 {
                out.push_str("newmtl m\n");
            }
            for l in letters {
                out.push_str(kinds[l]);
            }
            out.push_str(faults[(i / 2 % m) as usize]);
        },
    )
}

pub fn unknown_statements(letters: u32) -> Space {
    let mut words: Vec<String> = Vec::new();
    let alphabet: Vec<char> = "abcdefghijklmnopqrstuvwxyz_".chars().collect();
    let mut index = Vec::new();
    for i in 1..words_up_to(27, letters) {
        word(i, 27, &mut index);
        let w: String = index.iter().map(|&l| alphabet[l]).collect();
        let mut c = w.clone();
        c[..1].make_ascii_uppercase();
        words.push(c);
        words.push(w);
    }
    let known = [
        "newmtl", "Ka", "Kd", "Ks", "Ke", "d", "Ns", "Ni", "illum", "map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_d", "map_Bump", "bump", "disp", "decal",
    ];
    for k in known {
        words.push(k.to_uppercase());
        words.push(k.to_lowercase());
        words.push(format!("{}{}", k, k));
        words.push(format!("{}x", k));
        words.push(format!("{}1", k));
        words.push(format!("{}_", k));
        words.push(format!("\u{feff}{}", k));
        words.push(format!("{}\u{0}", k));
        words.push(format!("{}\u{a0}", k));
        words.push(format!("map_{}", k));
        words.push(format!("-{}", k));
        words.push(k[..k.len() - 1].to_string());
        words.push(k[1..].to_string());
    }
    for w in [
        "Tr", "map_refl", "refl", "sharpness", "map_aat", "Pr", "Pm", "Ps", "Pc", "Pcr", "aniso", "anisor", "norm", "map_Pr", "map_Pm", "map_Disp", "map_bump", "map_disp", "map_decal", "Bump", "Disp", "Decal", "map_Ni", "map_Tr", "#", "//", ";", "0",
        "1", "-1", "1.0", "é", "v", "f", "o", "usemtl", "mtllib", "off",
    ] {
        words.push(w.to_string());
    }
    // Documented, but not supported: a known finding of its own.
    words.retain(|w| !w.is_empty() && w != "Tf");
    words.sort();
    words.dedup();
    let frames = [
        "@\n",
        "@ 1 1 1\n",
        "newmtl m\n@ 1 1 1\n",
        "newmtl m\n@ a\n",
        "newmtl m\nKa 1 1 1\n\n  @ 1\nd 1\n",
        "newmtl m\nKa 1 1 1 @\n",
        "newmtl m\nd 1\n@",
        "newmtl m @ 1\n",
        "newmtl m\nmap_Ka x @\nnewmtl n\n",
        "@ newmtl m\n",
    ];
    framed("mtl/unknown-statements", &frames, Space::list("", format!("all words of at most {} letters and words of the wider format", letters), words))
}

pub fn base_files() -> Vec<&'static str> {
    vec![
        "# head\nnewmtl a\nKa 1 2 3\nKd 4 5 6\nKs 7 8 9\nKe 1 1 1\nd 0.5\nNs 10\nNi 1.5\nillum 1\nmap_Ka a\nmap_Kd b\nmap_Ks c\nmap_Ke d\nmap_Ns e\nmap_d f\nbump g\ndisp h\ndecal i\n\nnewmtl b\nmap_Bump j\nillum 0\n",
        "newmtl a\n",
        "newmtl a\r\nKa 0 0 0\r\n\r\nnewmtl b\rd 1 # x",
    ]
}

const POOL: [&str; 28] = [
    "\n", "1", "-1", "0", "2", "3", "x", "newmtl", "Ka", "Kd", "Ks", "Ke", "d", "Ns", "Ni", "illum", "map_Ka", "map_Bump", "bump", "decal", "1.5", "#", "\\", "\r", "\r\n", "newmtl q\n", "é", "\t",
];

fn edit_kinds() -> u64 {
    3 + 2 * POOL.len() as u64
}

fn tokens(text: &str) -> Vec<String> {
    let spaced = text.replace('\n', " \n ").replace('\r', " \r ");
    spaced.split(' ').filter(|w| !w.is_empty()).map(String::from).collect()
}

fn edit(words: &mut Vec<String>, e: u64) {
    let (kind, at) = ((e % edit_kinds()) as usize, (e / edit_kinds()) as usize);
    let n = POOL.len();
    if at > words.len() || (at == words.len() && kind < 3 + n) {
        return;
    }
    match kind {
        0 => {
            words.remove(at);
        }
        1 => {
            let w = words[at].clone();
            words.insert(at, w);
        }
        2 if at + 1 < words.len() => words.swap(at, at + 1),
        2 => {}
        k if k < 3 + n => words[at] = POOL[k - 3].to_string(),
        k => words.insert(at, POOL[k - 3 - n].to_string()),
    }
}

pub fn word_edits(files: Vec<&str>) -> Space {
    let files: Vec<Vec<String>> = files.iter().map(|f| tokens(f)).collect();
    let sizes: Vec<u64> = files.iter().map(|f| (f.len() as u64 + 1) * edit_kinds()).collect();
    Space::new(
        "mtl/word-edits",
        format!("all single edits of the words of {} valid files ({} kinds of edits)", files.len(), edit_kinds()),
        sizes.iter().sum(),
        move |mut i, out| {
            let mut f = 0;
            while i >= sizes[f] {
                i -= sizes[f];
                f += 1;
            }
            let mut words = files[f].clone();
            edit(&mut words, i);
            crate::objspace::join(&words, out);
        },
    )
}

pub fn word_edit_pairs(file: &str) -> Space {
    let words = tokens(file);
    let n = (words.len() as u64 + 1) * edit_kinds();
    Space::new(
        "mtl/word-edit-pairs",
        format!("all pairs of edits of the {} words of a valid file", words.len()),
        n * n,
        move |i, out| {
            let mut words = words.clone();
            edit(&mut words, i % n);
            edit(&mut words, i / n);
            crate::objspace::join(&words, out);
        },
    )
}

pub fn shared_lines(depth: u32) -> Space {
    let parts = ["newmtl m", "Ka 1 2 3", "d 0.5", "Ni 2", "illum 1", "map_Ka a", "bump b"];
    let mut all: Vec<String> = Vec::new();
    for p in parts {
        all.push(format!("{} ", p));
        all.push(format!("{}\n", p));
    }
    let all: Vec<&str> = all.iter().map(|s| s.as_str()).collect();
    let space = fragments("mtl/shared-lines", &all, depth);
    Space { bound: format!("all sequences of at most {} statements of {} kinds, each ending its line or not", depth, parts.len()), ..space }
}

pub fn scalar_names() -> Space {
    Space::new("mtl/scalar-names", "every Unicode scalar value at the start, within and at the end of names", 0x110000 - 0x800, |i, out| {
        let c = scalar(i);
        let _ = write!(
            out,
            "newmtl a{c}b\nmap_Ka {c}\nmap_Kd {c}x\nmap_Ks x{c}\nmap_Ke {c}\nmap_Ns {c}{c}\nmap_d y{c}\nbump {c}z\ndisp a{c}a\ndecal {c}\nnewmtl {c}\nmap_Bump {c}\n"
        );
    })
}

pub const NAME_FRAMES: [&str; 12] = [
    "newmtl @\nd 0.5\n",
    "newmtl a\nd 0.5\nnewmtl @\n",
    "newmtl a\nmap_Ka @\n",
    "newmtl a\nmap_Kd @\n",
    "newmtl a\nmap_Ks @\n",
    "newmtl a\nmap_Ke @\n",
    "newmtl a\nmap_Ns @\n",
    "newmtl a\nmap_d @\n",
    "newmtl a\nmap_Bump @\n",
    "newmtl a\nbump @\nd 1\n",
    "newmtl a\ndisp @\n",
    "newmtl a\ndecal @",
];

pub fn tricky_names(depth: u32) -> Space {
    framed("mtl/tricky-names", &NAME_FRAMES, fragments("", &TRICKY, depth))
}

pub fn keyword_names() -> Space {
    let mut words: Vec<String> = Vec::new();
    for k in [
        "newmtl", "Ka", "Kd", "Ks", "Ke", "d", "Ns", "Ni", "illum", "map_Ka", "bump", "map_Bump", "disp", "decal", "Tf", "off", "0", "1", "-1", "1.5", "none", "None", "default", "\"\"", "''", "*", ".", "..", "/", "a/b.png", "C:/x.png", "-s", "-bm", "$x", "%20", "Material.001", "a=b",
        "a,b", "a;b", "(null)", "tex.PNG", "TEX.png", ".png", "a.b.c",
    ] {
        words.push(k.to_string());
        words.push(format!("{}{}", k, k));
        words.push(format!("_{}", k));
        words.push(format!("{}_", k));
    }
    framed("mtl/keyword-names", &NAME_FRAMES, Space::list("", "names that are keywords, numbers and the like", words))
}

pub fn raw_texts(depth: u32) -> Space {
    fragments("mtl/raw-texts", &["newmtl", " ", "\n", "m", "d", "1", "K", "a", "#", "\r", "\\", "map_", "illum", "-", "é"], depth)
}

pub fn word_salad(depth: u32) -> Space {
    let words = [
        "\n", "newmtl ", "Ka ", "Kd ", "Ks ", "Ke ", "d ", "Ns ", "Ni ", "illum ", "map_Ka ", "map_Kd ", "bump ", "map_Bump ", "disp ", "decal ", "1 ", "-1 ", "0.5 ", "x ", "# ", "\r", "3 ", "9223372036854775808 ",
    ];
    framed("mtl/word-salad", &["@", "newmtl m\n@"], fragments("", &words, depth))
}

pub fn scalar_faults() -> Space {
    Space::new("mtl/scalar-faults", "every Unicode scalar value in a rejected word of 4 positions", (0x110000 - 0x800) * 4, |i, out| {
        let c = scalar(i / 4);
        let _ = match i % 4 {
            0 => write!(out, "x{c}y\n"),
            1 => write!(out, "newmtl m\nKa 1 2 {c}\n"),
            2 => write!(out, "newmtl m\nillum 1{c}\n"),
            _ => write!(out, "newmtl m\na{c} 1\n"),
        };
    })
}

/// All dimensions at these counts.
pub fn sizes_at(counts: &[usize]) -> Space {
    let dims = dimensions();
    let counts = counts.to_vec();
    let k = dims.len() as u64;
    Space::new(
        "mtl/sizes-at",
        format!("{} things that can repeat, {:?} times", k, counts),
        k * counts.len() as u64,
        move |i, out| out.push_str(&dims[(i % k) as usize].1(counts[(i / k) as usize])),
    )
}
