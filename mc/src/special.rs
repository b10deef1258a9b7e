//! Items that relate several executions of the implementation to each other.

use crate::engine::{guarded, Ctx, Fail, Item};
use crate::judge::{self, fail, integrity, lookup, parse_mtl, parse_obj, same};
use crate::model::{self, NoLog};
use crate::sched::At;
use crate::space::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, OnceLock};
use wavefront_obj::{mtl, obj};

// ---------------------------------------------------------------- layout

struct Doc {
    mtl: bool,
    lines: Vec<Vec<String>>,
    plain: OnceLock<Parsed>,
}

#[derive(PartialEq, Debug)]
enum Parsed {
    Obj(obj::ObjectSet),
    Mtl(mtl::MaterialSet),
    Rejected,
}

fn parsed(is_mtl: bool, text: &str) -> Result<Parsed, Fail> {
    Ok(if is_mtl {
        parse_mtl(text)?.map_or(Parsed::Rejected, Parsed::Mtl)
    } else {
        parse_obj(text)?.map_or(Parsed::Rejected, Parsed::Obj)
    })
}

const INNER: [&str; 7] = [" ", "\t", "\\", "  ", " \\ ", "\t\t \t", "\\\\\\"];
const LEAD: [&str; 5] = ["", " ", "\t", "\\", " \\\t "];
const TRAIL: [&str; 12] = ["", " ", "\t", "\\", "#c", " # v 1 2 3", "#", " #\\", "\\#x", "#é\t\u{2028}", "##", "  \t\\ "];
const END: [&str; 14] = [
    "\n", "\r\n", "\r", "\n\n", "\r\r", "\r\n\r\n", "\n\r", "\n \n", "\n#c\n", "\r\n\t# c\r\n", "\r# c\r", "\n\\\n", "\n\n\n\n", "\r\r\n",
];
const HEAD: [&str; 8] = ["", "\n", "\r\n", "\r", "# c\n", "  \n", "\t", "#\r\n\\\r"];

fn docs(rich: bool) -> Arc<Vec<Doc>> {
    let mut result = Vec::new();
    let mut add = |mtl: bool, text: &str| {
        let lines = text.lines().map(|l| l.split(' ').map(String::from).collect()).collect();
        result.push(Doc { mtl, lines, plain: OnceLock::new() });
    };
    let mut small = vec![
        "v 1 2 3\nf 1 1 1",
        "o a\nv 1 2 3\np 1",
        "v 1 2 3\ng a b\np 1\ng\np 1",
        "v 1 2 3\ns 1\np 1\ns off\np 1",
        "v 1 2 3\nusemtl m\np 1\nusemtl n\nl 1 1",
        "mtllib a b\nmtllib c\nv 1 2 3 4\nvt 1\nvn 1 2 3",
        "v 1 2 3\nv 4 5 6\nvt 1 2\nvt 3\nvn 1 0 0\nf 1/1/1 2/2/1 -1/-1/-1\nl 1//1 2//-1",
        "o a\no b\nv 1 2 3\ng g1\nf -1 -1 -1 -1\no c\nusemtl z",
        // Rejected ones.
        "v 1 2\nv 3 4 5",
        "v 1 2 3\nf 1 1\np 1",
        "v 1 2 3\np 1 x",
        "v 1 2 3\nx 1 2",
        "o\nv 1 2 3",
        "v 1 2 3\nusemtl\np 1",
        "v 1 2 3\ns\np 1",
        "v 1 2 3\nmtllib a",
        "vt\nv 1 2 3",
        "o a b\nv 1 2 3",
    ];
    if rich {
        small.push("mtllib a b\nmtllib c\no x\nv 1 2 3\nv 4 5 6 7\nv 8 9 10\nvt 1\nvt 1 2\nvt 1 2 3\nvn 1 2 3\ng a b\ns 1\nusemtl m\nf 1/1/1 2/2/1 3/3/1\np 1 2\nl 1 2 3\no y\nv 1 1 1\nvn 0 0 1\nusemtl n\ns off\nf -1//-1 4//2 -1//2\ng\np 4 -1");
    }
    for d in small {
        add(false, d);
    }
    for d in [
        "newmtl a\nKa 1 2 3\nd 0.5",
        "newmtl a\nmap_Ka x\nbump y\nnewmtl b\nillum 1\nNs 3\nNi 2",
        "newmtl a\nKd 1 2 3\nKs 4 5 6\nKe 7 8 9\nmap_Kd a\nmap_Ks b\nmap_Ke c\nmap_Ns d\nmap_d e\nmap_Bump f\ndisp g\ndecal h",
        // Rejected ones.
        "newmtl\nKa 1 2 3",
        "newmtl a\nKa 1 2\nd 0.5",
        "newmtl a\nmap_Ka\nd 0.5",
        "newmtl a\nillum 3",
        "d 1\nnewmtl a",
    ] {
        add(true, d);
    }
    Arc::new(result)
}

/// The gaps of a document: the head, then for each line its leading gap, its
/// inner gaps, its trailing gap and its end.
fn options(doc: &Doc) -> Vec<&'static [&'static str]> {
    let mut result: Vec<&'static [&'static str]> = vec![&HEAD];
    for line in &doc.lines {
        result.push(&LEAD);
        for _ in 1..line.len() {
            result.push(&INNER);
        }
        result.push(&TRAIL);
        result.push(&END);
    }
    result
}

fn render(doc: &Doc, choice: impl Fn(usize) -> usize, last_end: bool) -> String {
    let mut out = String::from(HEAD[choice(0)]);
    let mut at = 1;
    for (l, line) in doc.lines.iter().enumerate() {
        out.push_str(LEAD[choice(at)]);
        at += 1;
        for (k, w) in line.iter().enumerate() {
            if k > 0 {
                out.push_str(INNER[choice(at)]);
                at += 1;
            }
            out.push_str(w);
        }
        out.push_str(TRAIL[choice(at)]);
        at += 1;
        if last_end || l + 1 < doc.lines.len() {
            out.push_str(END[choice(at)]);
        }
        at += 1;
    }
    out
}

/// May the last line terminator be left out?
fn open_ended(doc: &Doc) -> bool {
    doc.lines.last().map_or(false, |l| l[0] != "o")
}

fn check_layout(doc: &Doc, text: String, ctx: &mut Ctx) -> Result<(), Fail> {
    ctx.traces += 1;
    ctx.sample(&text);
    if doc.plain.get().is_none() {
        let plain = render(doc, |_| 0, true);
        let _ = doc.plain.set(parsed(doc.mtl, &plain)?);
    }
    if doc.mtl {
        let _ = model::mtl(&text, ctx);
    } else {
        let _ = model::obj(&text, ctx);
    }
    let got = parsed(doc.mtl, &text)?;
    let want = doc.plain.get().unwrap();
    ctx.count(got != Parsed::Rejected);
    if &got != want {
        let plain = render(doc, |_| 0, true);
        let what = |p: &Parsed| if *p == Parsed::Rejected { "rejected" } else { "accepted" };
        return fail(&text, format!("({}) differs from {:?} ({}), of which it is a layout variant", what(&got), plain, what(want)));
    }
    Ok(())
}

/// The same layout everywhere, all combinations.
pub fn layout_uniform(rich: bool) -> Item {
    let docs = docs(rich);
    let radix = [docs.len() as u64, HEAD.len() as u64, LEAD.len() as u64, INNER.len() as u64, TRAIL.len() as u64, END.len() as u64, 2];
    Item::new(
        "layout/uniform",
        format!("{} files in all combinations of {} blanks, {} beginnings, {} line ends", radix[0], radix[3], radix[2], radix[4] * radix[5]),
        product(&radix),
        move |i, ctx| {
            let [d, head, lead, inner, trail, end, open] = digits(i, radix);
            let doc = &docs[d];
            if open == 1 && !open_ended(doc) {
                return Ok(());
            }
            let opts = options(doc);
            let choice = |at: usize| -> usize {
                let o = opts[at].as_ptr();
                if at == 0 {
                    head
                } else if o == LEAD.as_ptr() {
                    lead
                } else if o == INNER.as_ptr() {
                    inner
                } else if o == TRAIL.as_ptr() {
                    trail
                } else {
                    end
                }
            };
            check_layout(doc, render(doc, choice, open == 0), ctx)
        },
    )
}

/// All ways to deviate from the plain layout at `k` places.
pub fn layout_deviations(rich: bool, k: u32) -> Item {
    let docs = docs(rich);
    // Single deviations per document: (place, option).
    let singles: Vec<Vec<(usize, usize)>> = docs
        .iter()
        .map(|d| {
            let mut all = Vec::new();
            for (at, o) in options(d).iter().enumerate() {
                for c in 1..o.len() {
                    all.push((at, c));
                }
            }
            all
        })
        .collect();
    let sizes: Vec<u64> = singles.iter().map(|s| (s.len() as u64).pow(k) * 2).collect();
    Item::new(
        format!("layout/deviations-{}", k),
        format!("{} files with every {} deviations of the layout at any places, last line terminated or not", docs.len(), k),
        sizes.iter().sum(),
        move |mut i, ctx| {
            let mut d = 0;
            while i >= sizes[d] {
                i -= sizes[d];
                d += 1;
            }
            let doc = &docs[d];
            let open = i % 2 == 1;
            if open && !open_ended(doc) {
                return Ok(());
            }
            i /= 2;
            let n = singles[d].len() as u64;
            let mut chosen = Vec::new();
            for _ in 0..k {
                chosen.push(singles[d][(i % n) as usize]);
                i /= n;
            }
            // Each set of places once.
            if chosen.windows(2).any(|w| w[0].0 >= w[1].0) {
                return Ok(());
            }
            let choice = |at: usize| chosen.iter().find(|c| c.0 == at).map_or(0, |c| c.1);
            check_layout(doc, render(doc, choice, !open), ctx)
        },
    )
}

/// Comments with all short bodies, at the places a comment can stand.
pub fn comment_bodies(depth: u32) -> Space {
    let frames = [
        "#@\nv 1 2 3\np 1\n",
        "v 1 2 3#@\np 1\n",
        "v 1 2 3 #@\r\np 1\r\n",
        "v 1 2 3\np 1 #@",
        "v 1 2 3\n#@\r#@\ng a#@\np 1 1#@\n",
        "o a#@\nv 1 2 3\nusemtl m#@\np 1\n",
        "mtllib a #@\n#@\nmtllib b\ns 1#@\nv 1 2 3\n",
        "v 1 2 #@\n3\n",
        "v 1 2 3\nf 1 1 1#@\nf 1 1 1 #@",
    ];
    framed("comment-bodies", &frames, fragments("", &["#", "\\", " ", "\t", "a", "v 1 2 3", "é", "\"", "\u{2028}", "/*", "\u{b}", "\u{0}"], depth))
}

pub fn mtl_comment_bodies(depth: u32) -> Space {
    let frames = ["#@\nnewmtl a\nd 0.5\n", "newmtl a#@\nKa 1 2 3#@\r\nd 1 #@\r", "newmtl a\nmap_Ka x#@\nillum 1#@", "newmtl a\nKa 1 2 #@\n3\n"];
    framed("mtl/comment-bodies", &frames, fragments("", &["#", "\\", " ", "\t", "a", "d 1", "é", "\"", "\u{2028}", "/*", "\u{b}", "\u{0}"], depth))
}

// ---------------------------------------------------------------- objects

/// Bodies of objects that only use relative indices.
const PIECES: [&str; 34] = [
    "",
    "v 1 2 3\n",
    "vt 1 2\n",
    "vn 1 2 3\n",
    "v 4 5 6\np -1\n",
    "v 1 2 3\nv 4 5 6\nf -1 -2 -1\n",
    "v 1 2 3\nv 4 5 6\nv 7 8 9\nf -3 -2 -1 -3\nf -1 -1 -2\n",
    "v 1 2 3\nvt 1 2\nf -1/-1 -1/-1 -1/-1\n",
    "v 1 2 3\nvt 1 2\nvt 3 4\nl -1/-2 -1/-1\n",
    "v 1 2 3\nvn 1 2 3\nf -1//-1 -1//-1 -1//-1\n",
    "v 1 2 3\nvn 1 2 3\nvn 4 5 6\nvn 7 8 9\nl -1//-3 -1//-1\n",
    "vt 5 5\nvn 6 6 6\nv 1 2 3\nf -1/-1/-1 -1/-1/-1 -1/-1/-1\n",
    "v 1 2 3\nvt 1\nvt 2\nvt 3\nvn 1 1 1\nf -1/-3/-1 -1/-2/-1 -1/-1/-1\n",
    "g a\n",
    "s 1\n",
    "usemtl m\n",
    "g a\ns 1\nusemtl m\n",
    "v 1 2 3\ng a\np -1\n",
    "v 1 2 3\ns 1\np -1\n",
    "v 1 2 3\nusemtl m\np -1\n",
    "v 1 2 3\np -1\ng a\n",
    "v 1 2 3\np -1\ns 1\n",
    "v 1 2 3\np -1\nusemtl m\n",
    "v 1 2 3\ng a b\ns 2\nusemtl n\np -1 -1\ng\ns off\nusemtl q\nl -1 -1 -1\n",
    "v 1 2 3\np -1\ng a\np -1\ns 3\np -1\nusemtl m\np -1\n",
    "v 1 2 3\ng default\np -1\n",
    "v 1 2 3\ns 0\np -1\n",
    "g b\ng c\nv 1 2 3\np -1\n",
    "usemtl m\nusemtl n\nv 1 2 3\np -1\n",
    "s 1\ns 2\nv 1 2 3\np -1\n",
    "\n# c\n\n",
    "v 1 2 3\np -1\nv 4 5 6\np -1 -2\nv 7 8 9\np -3\n",
    "v 1 2 3 0.5\nvt 1\nvn 0 0 1\nf -1 -1 -1\nf -1/-1 -1/-1 -1/-1\nf -1//-1 -1//-1 -1//-1\n",
    "v 1 1 1\nv 1 1 1\nv 1 1 1\nv 1 1 1\nv 1 1 1\nf -5 -4 -3 -2 -1\n",
];

/// Files put together from objects parse to those objects.
pub fn concatenation(count: u32) -> Item {
    let n = PIECES.len() as u64;
    let words = n.pow(count);
    let names = [["a", "b", "c", "d"], ["a", "a", "a", "a"], ["v", "1", "default", "o"]];
    let singles: Arc<Vec<OnceLock<obj::Object>>> = Arc::new((0..PIECES.len()).map(|_| OnceLock::new()).collect());
    Item::new(
        format!("objects/concatenation-{}", count),
        format!("all sequences of {} of {} object bodies, first one named or not, 3 choices of names, 2 layouts", count, n),
        words * 3 * 2 * 2,
        move |i, ctx| {
            let [w, name, unnamed, layout] = digits(i, [words, 3, 2, 2]);
            let mut pieces = Vec::new();
            let mut w = w as u64;
            for _ in 0..count {
                pieces.push((w % n) as usize);
                w /= n;
            }
            let mut text = String::new();
            let mut want: Vec<obj::Object> = Vec::new();
            for (k, &p) in pieces.iter().enumerate() {
                let single = match singles[p].get() {
                    Some(o) => o.clone(),
                    None => {
                        let alone = format!("o x\n{}", PIECES[p]);
                        let Ok(set) = parse_obj(&alone)? else { return fail(&alone, "rejected, but nothing is wrong with it") };
                        let Some(o) = set.objects.into_iter().next() else { return fail(&alone, "parsed to no object") };
                        singles[p].get_or_init(|| o).clone()
                    }
                };
                let is_unnamed = k == 0 && unnamed == 1;
                let mut o = single;
                o.name = String::new();
                if !is_unnamed {
                    text.push_str("o ");
                    text.push_str(names[name][k]);
                    text.push('\n');
                    o.name = names[name][k].to_string();
                }
                text.push_str(PIECES[p]);
                if !is_unnamed || PIECES[p].lines().any(|l| !l.is_empty() && !l.starts_with('#')) {
                    want.push(o);
                }
            }
            if layout == 1 {
                text = text.replace('\n', " # o x\r\n\r\n");
            }
            ctx.traces += 1;
            ctx.sample(&text);
            let _ = model::obj(&text, ctx);
            let Ok(got) = parse_obj(&text)? else { return fail(&text, "rejected, but its objects are accepted one by one") };
            ctx.count(true);
            if got.objects.len() != want.len() {
                return fail(&text, format!("{} objects instead of {}", got.objects.len(), want.len()));
            }
            for (k, (g, w)) in got.objects.iter().zip(&want).enumerate() {
                if g != w {
                    return fail(&text, format!("object {} differs from the same object parsed alone: {:?} instead of {:?}", k, g, w));
                }
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------- display

fn object_of(text: &str) -> Result<obj::Object, Fail> {
    match parse_obj(text)? {
        Ok(set) if set.objects.len() == 1 => Ok(set.objects.into_iter().next().unwrap()),
        Ok(set) => fail(text, format!("the displayed form parses to {} objects", set.objects.len())),
        Err(e) => fail(text, format!("the displayed form is rejected: {}", e)),
    }
}

fn shown<T: std::fmt::Display>(input: &str, x: &T) -> Result<String, Fail> {
    guarded(|| format!("{}", x)).or_else(|p| fail(input, format!("displaying {}", p)))
}

/// Find `(first) ... (last)` and the length, in this order, from `at` on.
fn find_list(input: &str, text: &str, at: &mut usize, what: &str, first: Option<String>, last: Option<String>, len: usize) -> Result<(), Fail> {
    // What stands before the list says which one it is.
    let rest = &text[*at..];
    let begin = match &first {
        Some(first) => rest.find(&format!("({})", first)),
        None => rest.find(|c: char| c.is_ascii_digit()),
    };
    let label = rest[..begin.unwrap_or(rest.len())].to_ascii_lowercase();
    let words: Vec<&str> = ["vertex", "texture", "normal", "group", "smoothing", "element"].into_iter().filter(|w| *w != "vertex" && !(what == "smoothing" && *w == "group") && label.contains(w) || what == "vertex" && *w == "vertex" && label.contains("vert")).collect();
    if words != [what] {
        return fail(input, format!("the displayed object does not label the {} list as such: {:?}", what, text));
    }
    for part in [first, last].into_iter().flatten() {
        let part = format!("({})", part);
        match text[*at..].find(&part) {
            Some(k) => *at += k + part.len(),
            None => return fail(input, format!("the displayed object does not show {} at its place for the {} list: {:?}", part, what, text)),
        }
    }
    // The next number that stands alone is the length.
    let rest = &text[*at..];
    let Some(start) = rest.find(|c: char| c.is_ascii_digit()) else {
        return fail(input, format!("the displayed object shows no length for the {} list: {:?}", what, text));
    };
    let n = rest[start..].bytes().take_while(|b| b.is_ascii_digit()).count();
    if rest[start..start + n] != len.to_string() {
        return fail(input, format!("the displayed object shows length {} instead of {} for the {} list: {:?}", &rest[start..start + n], len, what, text));
    }
    *at += start + n;
    Ok(())
}

/// Display everything in an object and parse it back.
fn check_display(input: &str, o: &obj::Object) -> Result<(), Fail> {
    for v in &o.vertex_set {
        let text = shown(input, v)? + "\n";
        let back = object_of(&text)?;
        let ok = back.vertex_set.len() == 1 && {
            let b = &back.vertex_set[0];
            same(b.x, v.x) && same(b.y, v.y) && same(b.z, v.z) && same(b.w, v.w)
        };
        if !ok {
            return fail(input, format!("{:?} is displayed as {:?}, which parses to {:?}", v, text, back.vertex_set));
        }
    }
    for v in &o.texture_vertex_set {
        let text = shown(input, v)? + "\n";
        let back = object_of(&text)?;
        let ok = back.texture_vertex_set.len() == 1 && {
            let b = &back.texture_vertex_set[0];
            same(b.u, v.u) && same(b.v, v.v) && same(b.w, v.w)
        };
        if !ok {
            return fail(input, format!("{:?} is displayed as {:?}, which parses to {:?}", v, text, back.texture_vertex_set));
        }
    }
    for v in &o.normal_vertex_set {
        let text = shown(input, v)? + "\n";
        let back = object_of(&text)?;
        let ok = back.normal_vertex_set.len() == 1 && {
            let b = &back.normal_vertex_set[0];
            same(b.x, v.x) && same(b.y, v.y) && same(b.z, v.z)
        };
        if !ok {
            return fail(input, format!("{:?} is displayed as {:?}, which parses to {:?}", v, text, back.normal_vertex_set));
        }
    }
    let mut prefix = String::new();
    prefix += &"v 0 0 0\n".repeat(o.vertex_set.len());
    prefix += &"vt 0 0\n".repeat(o.texture_vertex_set.len());
    prefix += &"vn 0 0 1\n".repeat(o.normal_vertex_set.len());
    // Elements, each in its own text.
    for e in &o.element_set {
        let line = shown(input, e)?;
        let back = object_of(&format!("{}{}\n", prefix, line))?;
        if back.element_set.len() != 1 || back.element_set[0] != *e {
            return fail(input, format!("{:?} is displayed as {:?}, which parses to {:?}", e, line, back.element_set));
        }
        // Its indices, on their own, are the operands of the statement.
        let ixs = match e {
            obj::Element::Point(a) => vec![a],
            obj::Element::Line(a, b) => vec![a, b],
            obj::Element::Face(a, b, c) => vec![a, b, c],
        };
        let words: Vec<&str> = line.split_whitespace().collect();
        if words.len() != ixs.len() + 1 {
            return fail(input, format!("{:?} is displayed as {:?}", e, line));
        }
        for (i, w) in ixs.iter().zip(&words[1..]) {
            if shown(input, *i)? != *w {
                return fail(input, format!("{:?} is displayed as {:?}, its index {:?} as {:?}", e, line, i, shown(input, *i)?));
            }
        }
    }
    for g in &o.group_set {
        let line = format!("g {}\n", shown(input, g)?);
        let back = object_of(&line)?;
        if back.group_set.len() != 1 || back.group_set[0] != *g {
            return fail(input, format!("{:?} is displayed as {:?}, which parses to {:?}", g, line, back.group_set));
        }
    }
    for s in &o.smoothing_group_set {
        let line = format!("s {}\n", shown(input, s)?);
        let back = object_of(&line)?;
        if back.smoothing_group_set.len() != 1 || back.smoothing_group_set[0] != *s {
            return fail(input, format!("{:?} is displayed as {:?}, which parses to {:?}", s, line, back.smoothing_group_set));
        }
    }
    check_summary(input, o)
}

/// The summary names the object and the ends and lengths of its lists.
fn check_summary(input: &str, o: &obj::Object) -> Result<(), Fail> {
    let text = shown(input, o)?;
    let mut at = 0;
    let Some(k) = text.find(&format!("{}\n", o.name)) else {
        return fail(input, format!("the displayed object does not show its name {:?}: {:?}", o.name, text));
    };
    at += k + o.name.len();
    fn ends<T: std::fmt::Display>(s: &[T]) -> (Option<String>, Option<String>) {
        (s.first().map(|x| x.to_string()), s.last().map(|x| x.to_string()))
    }
    macro_rules! check {
        ($list:expr, $what:expr) => {
            let (first, last) = ends(&$list);
            find_list(input, &text, &mut at, $what, first, last, $list.len())?;
        };
    }
    check!(o.vertex_set, "vertex");
    check!(o.texture_vertex_set, "texture");
    check!(o.normal_vertex_set, "normal");
    check!(o.group_set, "group");
    check!(o.smoothing_group_set, "smoothing");
    check!(o.element_set, "element");
    // Well-bracketed: every brace outside of names closes once.
    let body = text.replacen(&o.name, "", 1);
    let groups: usize = [o.group_set.first(), o.group_set.last()].iter().flatten().map(|g| g.0.matches(['{', '}']).count()).sum();
    if groups == 0 && body.matches('{').count() != body.matches('}').count() {
        return fail(input, format!("the displayed object is not bracketed: {:?}", text));
    }
    Ok(())
}

/// A set shows all its objects in order.
fn check_set_display(input: &str, set: &obj::ObjectSet) -> Result<(), Fail> {
    let text = shown(input, set)?;
    let mut at = 0;
    for (k, o) in set.objects.iter().enumerate() {
        let one = shown(input, o)?;
        match text[at..].find(one.trim_end()) {
            Some(p) => at += p + one.trim_end().len(),
            None => return fail(input, format!("the displayed set does not show object {} at its place: {:?}", k, text)),
        }
    }
    if let Some(o) = set.objects.first() {
        let header = shown(input, o)?;
        let header = header.split('\n').next().unwrap_or("");
        let plain = set.objects.iter().all(|o| !o.name.contains(header) && o.group_set.iter().all(|g| !g.0.contains(header)));
        if plain && !header.is_empty() && text.matches(&format!("\n{}\n", header)).count() != set.objects.len() {
            return fail(input, format!("the displayed set does not show each of its {} objects once: {:?}", set.objects.len(), text));
        }
    }
    Ok(())
}

/// Display what each text of a space parses to.
pub fn display(space: Space, everything: bool) -> Item {
    let text = space.text.clone();
    Item::new(format!("display/{}", space.name), format!("display of all objects parsed from: {}", space.bound), space.len, move |i, ctx| {
        let mut input = String::new();
        text(i, &mut input);
        ctx.traces += 1;
        ctx.sample(&input);
        let _ = model::obj(&input, ctx);
        let got = parse_obj(&input)?;
        ctx.count(got.is_ok());
        if let Ok(set) = &got {
            for o in &set.objects {
                if everything {
                    check_display(&input, o)?;
                } else {
                    check_summary(&input, o)?;
                }
            }
            check_set_display(&input, set)?;
        }
        Ok(())
    })
}

/// The displayed form of indices of all forms and of many values.
pub fn display_indices(max: usize) -> Item {
    let mut values: Vec<usize> = (0..max).collect();
    for k in 1..64 {
        values.extend([(1usize << k) - 2, (1usize << k) - 1, 1usize << k]);
    }
    values.push(usize::MAX - 1);
    values.sort();
    values.dedup();
    let n = values.len() as u64;
    Item::new("display/indices", format!("displayed indices in 4 forms with {} values", n), n * 4 * 3, move |i, ctx| {
        let [a, form, other] = digits(i, [n, 4, 3]);
        let (a, b) = (values[a], [0, 1, 6][other]);
        let (x, want) = match form {
            0 => (obj::VTNIndex::V(a), format!("{}", a as u128 + 1)),
            1 => (obj::VTNIndex::VT(b, a), format!("{}/{}", b + 1, a as u128 + 1)),
            2 => (obj::VTNIndex::VN(b, a), format!("{}//{}", b + 1, a as u128 + 1)),
            _ => (obj::VTNIndex::VTN(a, b, b + 1), format!("{}/{}/{}", a as u128 + 1, b + 1, b + 2)),
        };
        ctx.traces += 1;
        ctx.count(true);
        let got = shown(&format!("{:?}", x), &x)?;
        if got != want {
            return fail(&format!("{:?}", x), format!("displayed as {:?} instead of {:?}", got, want));
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- lookups

/// Referential integrity of what each text of a space parses to.
pub fn closed(space: Space) -> Item {
    let text = space.text.clone();
    Item::new(format!("integrity/{}", space.name), format!("integrity of all objects parsed from: {}", space.bound), space.len, move |i, ctx| {
        let mut input = String::new();
        text(i, &mut input);
        ctx.traces += 1;
        ctx.sample(&input);
        let want = model::obj(&input, ctx);
        let got = parse_obj(&input)?;
        ctx.count(got.is_ok());
        if let Ok(set) = &got {
            integrity(&input, set)?;
            // What an index denotes is settled by the file, too.
            if let Ok(want) = &want {
                judge::compare_set(&input, set, want, judge::VERTS | judge::ELEMS)?;
            }
        }
        Ok(())
    })
}

const PROBES: [usize; 13] = [0, 1, 2, 3, 4, 5, 6, 1 << 8, 1 << 16, 1 << 32, 1 << 63, usize::MAX - 1, usize::MAX];

/// All lookups in objects with all small numbers of items.
pub fn lookups() -> Item {
    let p = PROBES.len() as u64;
    let radix = [5, 5, 5, 4];
    Item::new(
        "lookups",
        "objects with 0 to 4 vertices, texture vertices and normals (as first and as second object); all indices of 4 forms over 13 values (0..6, wrap-around and extreme values)",
        product(&radix),
        move |i, ctx| {
            let [nv, nt, nn, form] = digits(i, radix);
            for second in [false, true] {
                let mut input = String::new();
                if second {
                    input += "o a\nv 9 9 9\nv 9 9 9\nvt 9 9\nvn 9 9 9\nvn 9 9 9\nvn 9 9 9\n";
                }
                input += "o b\n";
                for k in 0..nv {
                    input += &format!("v {} 0 1\n", k);
                }
                for k in 0..nt {
                    input += &format!("vt {} 0\n", k);
                }
                for k in 0..nn {
                    input += &format!("vn {} 0 0\n", k);
                }
                ctx.sample(&input);
                let _ = model::obj(&input, ctx);
                let Ok(set) = parse_obj(&input)? else { return fail(&input, "rejected, but nothing is wrong with it") };
                let Some(o) = set.objects.last() else { return fail(&input, "parsed to no object") };
                let ranges = match form {
                    0 => [p, 1, 1],
                    1 => [p, p, 1],
                    2 => [p, 1, p],
                    _ => [p, p, p],
                };
                for j in 0..product(&ranges) {
                    let [a, b, c] = digits(j, ranges);
                    let (a, b, c) = (PROBES[a], PROBES[b], PROBES[c]);
                    let x = match form {
                        0 => obj::VTNIndex::V(a),
                        1 => obj::VTNIndex::VT(a, b),
                        2 => obj::VTNIndex::VN(a, c),
                        _ => obj::VTNIndex::VTN(a, b, c),
                    };
                    ctx.traces += 1;
                    lookup(&input, o, x)?;
                }
                ctx.count(true);
            }
            Ok(())
        },
    )
}

/// All pairs of indices: the same form or not.
pub fn forms() -> Item {
    let p = PROBES.len();
    let make = move |i: usize| {
        let (form, rest) = (i % 4, i / 4);
        let (a, b, c) = (PROBES[rest % p], PROBES[(rest / 2) % p], PROBES[(rest / 3) % p]);
        match form {
            0 => obj::VTNIndex::V(a),
            1 => obj::VTNIndex::VT(a, b),
            2 => obj::VTNIndex::VN(a, c),
            _ => obj::VTNIndex::VTN(a, b, c),
        }
    };
    let n = 4 * p as u64 * 3;
    Item::new("forms", format!("all ordered pairs of {} indices of 4 forms", n), n * n, move |i, ctx| {
        let [a, b] = digits(i, [n, n]);
        let (x, y) = (make(a), make(b));
        ctx.traces += 1;
        ctx.count(true);
        let got = guarded(|| x.has_same_type_as(&y)).or_else(|p| fail("", p))?;
        if got != (a % 4 == b % 4) {
            return fail(&format!("{:?}.has_same_type_as({:?})", x, y), format!("is {}", got));
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- histories of calls

pub const TEXTS: [(bool, &str); 30] = [
    (false, ""),
    (false, "\n"),
    (false, "v 1 2 3\nv 4 5 6\nf 1 2 1\n"),
    (false, "v 1 2 3\nf 1 1 1"),
    (false, "v 7 8 9\np 1\n"),
    (false, "mtllib a b\no x\nv 1 2 3\ng a\ns 1\nusemtl m\np 1\no y\nv 1 1 1\nvn 1 2 3\np -1\nl 2//1 -1//-1\n"),
    (false, "mtllib c\n"),
    (false, "o x\n"),
    (false, "o x"),
    (false, "vt 1\nvt 2\nvn 1 2 3\n"),
    (false, "v 1 2 3\nf 1/1 1/1 1/1\n"),
    (false, "v 1 2 x\n"),
    (false, "v 1 2"),
    (false, "\n\n\nv 1 2 3\nzz\n"),
    (false, "v 1 2 3\nf 1 1\n"),
    (false, "f 1 2 3\n"),
    (false, "s\n"),
    (false, "g a b\nv 1 2 3\r\n\r\nusemtl m\r\np 1 # c"),
    (false, "é\n"),
    (false, "o é\nv 1 2 3\ng 日\np -1\n"),
    (true, ""),
    (true, "newmtl a\nKa 1 2 3\nillum 0\nmap_Ka x\n"),
    (true, "newmtl b\n"),
    (true, "newmtl a\nnewmtl b\nd 0.5\nNi 2\nbump y\n"),
    (true, "newmtl a\nKa 1 2"),
    (true, "newmtl"),
    (true, "\n\nd 1\n"),
    (true, "newmtl a\n\nillum 7\n"),
    (true, "newmtl a\nzz\n"),
    (true, "newmtl a\r\nmap_Kd é\r\nKs 1 1 1 # c"),
];


fn expect_obj(history: &str, text: &str, got: Result<obj::ObjectSet, obj::ParseError>) -> Result<(), Fail> {
    match (got, model::obj(text, &mut NoLog)) {
        (Ok(got), Ok(want)) => judge::compare_set(history, &got, &want, judge::CONTENT),
        (Err(got), Err(want)) if got.line_number == want.line => Ok(()),
        (got, want) => fail(history, format!("parsing {:?} gives {:?}, expected {:?}", text, got, want.map(|_| "a result"))),
    }
}

fn expect_mtl(history: &str, text: &str, got: Result<mtl::MaterialSet, mtl::ParseError>) -> Result<(), Fail> {
    match (got, model::mtl(text, &mut NoLog)) {
        (Ok(got), Ok(want)) => judge::compare_materials(history, &got, &want),
        (Err(got), Err(want)) if judge::shown_line(got.to_string().as_bytes()) == Some(want.line) => Ok(()),
        (got, want) => fail(history, format!("parsing {:?} gives {:?}, expected {:?}", text, got, want.map(|_| "a result"))),
    }
}

/// A text whose conversion to `&str` parses other texts.
struct Nosy<'a>(&'a str);
impl AsRef<str> for Nosy<'_> {
    fn as_ref(&self) -> &str {
        let _ = obj::parse("o z\nv 1 2 3\np 1\n");
        let _ = obj::parse("\n\nv 1\n");
        let _ = mtl::parse("newmtl z\nd 0.25\n");
        let _ = mtl::parse("\nzz\n");
        self.0
    }
}

/// How many ways there are to parse a text.
const ENTRIES: u64 = 6;

/// What came out of parsing a text for the first time in this process.
static FIRST: Mutex<BTreeMap<(bool, String), String>> = Mutex::new(BTreeMap::new());

/// The same text gives the same result, with all of its details.
fn expect_first(history: &str, is_mtl: bool, text: &str, shown: String) -> Result<(), Fail> {
    let mut first = FIRST.lock().unwrap();
    match first.get(&(is_mtl, text.to_string())) {
        None => {
            first.insert((is_mtl, text.to_string()), shown);
            Ok(())
        }
        Some(before) if *before == shown => Ok(()),
        Some(before) => fail(history, format!("parsing {:?} gave {} before, and now {}", text, before, shown)),
    }
}

/// Parse a text through one of the entry points; the result in full.
fn enter(history: &str, entry: usize, is_mtl: bool, text: &str) -> Result<String, Fail> {
    let panicked = |p: String| Fail { input: history.to_string(), detail: p };
    if is_mtl {
        let got = guarded(|| match entry {
            0 => mtl::parse(text),
            1 => mtl::parse(text.to_string()),
            2 => mtl::parse(&text.to_string()),
            3 => mtl::Parser::new(text).parse_mtlset(),
            4 => mtl::parse(Nosy(text)),
            _ => {
                let boxed: Box<str> = text.into();
                mtl::parse(&*boxed)
            }
        })
        .map_err(panicked)?;
        let shown = format!("{:?} {:?}", got, got.as_ref().err().map(|e| e.to_string()));
        expect_mtl(history, text, got)?;
        Ok(shown)
    } else {
        let got = guarded(|| match entry {
            0 => obj::parse(text),
            1 => obj::parse(text.to_string()),
            2 => obj::parse(&text.to_string()),
            3 => obj::Parser::new(text).parse_objset(),
            4 => obj::parse(Nosy(text)),
            _ => obj::Parser::new(text).clone().parse_objset(),
        })
        .map_err(panicked)?;
        let shown = format!("{:?} {:?}", got, got.as_ref().err().map(|e| e.to_string()));
        expect_obj(history, text, got)?;
        Ok(shown)
    }
}

/// The same for a text of the pool, compared with all other times.
fn enter_pool(history: &str, entry: usize, is_mtl: bool, text: &str) -> Result<(), Fail> {
    let shown = enter(history, entry, is_mtl, text)?;
    expect_first(history, is_mtl, text, shown)
}

/// All sequences of parse calls on a pool of texts.
pub fn call_sequences(count: u32) -> Item {
    let n = TEXTS.len() as u64 * ENTRIES;
    let pool = TEXTS.len() as u64;
    // The last call in every entry point, the ones before through `parse`.
    let len = pool.pow(count - 1) * n;
    Item::new(
        format!("calls/sequences-{}", count),
        format!("all sequences of {} parse calls on {} OBJ and MTL texts, the last one through each of {} entry points", count, pool, ENTRIES),
        len,
        move |i, ctx| {
            let mut i = i;
            let (entry, last) = ((i % ENTRIES) as usize, (i / ENTRIES % pool) as usize);
            i /= n;
            let mut history = String::new();
            for _ in 0..count - 1 {
                let (is_mtl, text) = TEXTS[(i % pool) as usize];
                i /= pool;
                history += &format!("parse {} {:?}; ", if is_mtl { "mtl" } else { "obj" }, text);
                enter_pool(&history, 0, is_mtl, text)?;
            }
            let (is_mtl, text) = TEXTS[last];
            history += &format!("parse {} {:?} through entry point {}", if is_mtl { "mtl" } else { "obj" }, text, entry);
            ctx.traces += 1;
            ctx.sample(&history);
            if is_mtl {
                let r = model::mtl(text, ctx).is_ok();
                ctx.count(r);
            } else {
                let r = model::obj(text, ctx).is_ok();
                ctx.count(r);
            }
            enter_pool(&history, entry, is_mtl, text)
        },
    )
}

/// The same memory holding one text after the other.
pub fn reused_memory() -> Item {
    let n = TEXTS.len() as u64;
    Item::new("calls/reused-memory", "all ordered pairs of texts, padded to one length and written to the same memory one after the other, parsed by both parsers", n * n, move |i, ctx| {
        let [a, b] = digits(i, [n, n]);
        let mut buffer = String::with_capacity(512);
        for k in [a, b, a] {
            buffer.clear();
            buffer.push_str(TEXTS[k].1);
            let end = buffer.ends_with('\n');
            while buffer.len() < 300 {
                buffer.push(if end { '\n' } else { ' ' });
            }
            let history = format!("in the memory of {:?}: {:?}", TEXTS[a].1, buffer);
            ctx.traces += 2;
            let got = guarded(|| obj::parse(&buffer)).or_else(|p| fail(&history, p))?;
            ctx.count(got.is_ok());
            expect_obj(&history, &buffer, got)?;
            let got = guarded(|| mtl::parse(&buffer)).or_else(|p| fail(&history, p))?;
            ctx.count(got.is_ok());
            expect_mtl(&history, &buffer, got)?;
        }
        Ok(())
    })
}

/// What stands before and after a text in memory.
const AROUND: [(&str, &str); 7] = [("", ""), ("0", "0"), ("\n", "\n"), (" ", " "), ("#", "#"), ("v 1 2 3\n", "/1\nv 1 2 3\n"), ("é", "é")];

/// Texts for `placed`: those of the pool and longer ones.
fn placed_texts() -> Vec<(bool, String)> {
    let mut texts: Vec<(bool, String)> = TEXTS.iter().map(|t| (t.0, t.1.to_string())).collect();
    for (open, close) in [("\n", ""), ("\r\n", "\r\n"), (" # a é\n\n\t", "#")] {
        let o = ["mtllib lib.mtl other.mtl", "o first", "v 1.25 -2.5 3e2 1", "v 10.125 20 30", "vt 0.5", "vn 0 0 1", "g aa b", "s 12", "usemtl material_1", "p 1 -1", "l 1/1 2/1", "f 1//1 2//-1 1//1 2//1", "o é", "v 100000 0.00001 123456789.125", "p 3"];
        texts.push((false, o.join(open) + close));
        texts.push((false, o[1..].join(open) + open + "f 3 3 99"));
        let m = ["newmtl first", "Ka 0.125 0.25 0.5", "illum 2", "map_Kd texture_é.png", "Ns 96.078431", "newmtl b", "d 0.5", "bump long-name-of-a-file.png"];
        texts.push((true, m.join(open) + close));
        texts.push((true, m.join(open) + open + "Kd 1 2"));
    }
    texts
}

/// Each text at every place in a line of cache, and in different surroundings.
pub fn placed() -> Item {
    let texts = placed_texts();
    let radix = [64, AROUND.len() as u64, texts.len() as u64];
    Item::new(
        "calls/placed",
        format!("{} texts, each at 64 offsets from a boundary in memory, {} surroundings before and after it in the same memory, parsed by both parsers", radix[2], radix[1]),
        radix.iter().product(),
        move |i, ctx| {
            let [offset, around, t] = digits(i, radix);
            let (is_mtl, text) = &texts[t];
            let (before, after) = AROUND[around];
            let mut buffer = String::with_capacity(text.len() + 600);
            let start = loop {
                if (buffer.as_ptr() as usize + buffer.len()) % 64 == offset && buffer.len() >= before.len() {
                    break buffer.len();
                }
                // Fill up so that what comes directly before is right in the end.
                let left = (offset + 128 - (buffer.as_ptr() as usize + buffer.len()) % 64) % 64;
                if !before.is_empty() && left % before.len() == 0 && left >= before.len() {
                    buffer.push_str(before);
                } else {
                    buffer.push(' ');
                }
            };
            buffer.push_str(text);
            while buffer.len() < start + text.len() + 64 {
                buffer.push_str(if after.is_empty() { " " } else { after });
            }
            let part = &buffer[start..start + text.len()];
            let history = format!("at {} bytes after a multiple of 64, between {:?} and {:?}: {:?}", offset, before, after, part);
            ctx.traces += 2;
            ctx.sample(&history);
            let got = guarded(|| obj::parse(part)).or_else(|p| fail(&history, p))?;
            ctx.count(got.is_ok() != *is_mtl);
            expect_obj(&history, part, got)?;
            let got = guarded(|| mtl::parse(part)).or_else(|p| fail(&history, p))?;
            expect_mtl(&history, part, got)
        },
    )
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}

/// Each text at the end, and at the start, of the memory that there is.
pub fn at_the_edge() -> Item {
    const PAGE: usize = 4096;
    let texts = placed_texts();
    let radix = [2, texts.len() as u64];
    Item::new(
        "calls/at-the-edge",
        format!("{} texts and all their prefixes that end in memory that cannot be read, or begin after such memory, parsed by both parsers", radix[1]),
        radix.iter().product(),
        move |i, ctx| {
            let [side, t] = digits(i, radix);
            let (_, text) = &texts[t];
            let pages = unsafe { mmap(std::ptr::null_mut(), 3 * PAGE, 3, 0x22, -1, 0) };
            if pages as isize == -1 {
                return Ok(());
            }
            unsafe {
                mprotect(pages, PAGE, 0);
                mprotect(pages.add(2 * PAGE), PAGE, 0);
            }
            let mut result = Ok(());
            for end in (0..=text.len()).filter(|&n| text.is_char_boundary(n)) {
                let place = unsafe { pages.add(if side == 0 { 2 * PAGE - end } else { PAGE }) };
                unsafe { std::ptr::copy_nonoverlapping(text.as_ptr(), place, end) };
                let part = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(place, end)) };
                let history = format!("{} memory that cannot be read: {:?}", ["before", "after"][side], part);
                ctx.traces += 2;
                ctx.sample(&history);
                ctx.count(true);
                result = guarded(|| obj::parse(part))
                    .or_else(|p| fail(&history, p))
                    .and_then(|got| expect_obj(&history, part, got))
                    .and_then(|_| guarded(|| mtl::parse(part)).or_else(|p| fail(&history, p)))
                    .and_then(|got| expect_mtl(&history, part, got));
                if result.is_err() {
                    break;
                }
            }
            unsafe { munmap(pages, 3 * PAGE) };
            result
        },
    )
}

/// All programs over parsers: create one on a text, clone one, parse with one.
pub fn parser_programs(depth: u32) -> Item {
    const SOME: [&str; 6] = [
        "v 1 2 3\nf 1 1 1\n",
        "mtllib a\no x\nv 1 2 3\ng a\np 1\no y\n",
        "v 1 2\n",
        "",
        "v 1 2 3\np 1",
        "\n\n# c\nzz\n",
    ];
    // Letters: 6 creations, clone of the k-th, parse with the k-th (k < 3).
    let k = 6 + 3 + 3;
    Item::new(
        format!("calls/parser-programs-{}", depth),
        format!("all programs of at most {} steps that create OBJ parsers on 6 texts, clone them and parse with them, up to 3 parsers addressable", depth),
        words_up_to(k, depth),
        move |i, ctx| {
            let mut letters = Vec::new();
            word(i, k, &mut letters);
            let mut parsers: Vec<(obj::Parser<'static>, &'static str, u8)> = Vec::new();
            let mut history = String::new();
            // 0 fresh, 1 exhausted, 2 failed.
            for l in letters {
                if l < 6 {
                    parsers.push((obj::Parser::new(SOME[l]), SOME[l], 0));
                    history += &format!("p{} = Parser::new({:?}); ", parsers.len() - 1, SOME[l]);
                } else if l < 9 {
                    let Some(p) = parsers.get(l - 6) else { return Ok(()) };
                    history += &format!("p{} = p{}.clone(); ", parsers.len(), l - 6);
                    let copy = (p.0.clone(), p.1, p.2);
                    parsers.push(copy);
                } else {
                    let Some(p) = parsers.get_mut(l - 9) else { return Ok(()) };
                    history += &format!("p{}.parse_objset(); ", l - 9);
                    let got = guarded(|| p.0.parse_objset()).or_else(|e| fail(&history, e))?;
                    ctx.traces += 1;
                    ctx.count(got.is_ok());
                    match p.2 {
                        0 => {
                            p.2 = if got.is_ok() { 1 } else { 2 };
                            expect_obj(&history, p.1, got)?;
                        }
                        1 => match got {
                            Ok(set) if set.objects.is_empty() && set.material_libraries.is_empty() => {}
                            other => return fail(&history, format!("an exhausted parser gives {:?}", other)),
                        },
                        _ => {}
                    }
                }
            }
            ctx.sample(&history);
            Ok(())
        },
    )
}

/// The same for MTL parsers, which cannot be cloned.
pub fn mtl_parser_programs(depth: u32) -> Item {
    const SOME: [&str; 5] = ["newmtl a\nKa 1 2 3\n", "newmtl a\nd 0.5\nnewmtl b\n", "newmtl a\nKa 1\n", "", "\n\nzz\n"];
    let k = 5 + 3;
    Item::new(
        format!("calls/mtl-parser-programs-{}", depth),
        format!("all programs of at most {} steps that create MTL parsers on 5 texts and parse with them", depth),
        words_up_to(k, depth),
        move |i, ctx| {
            let mut letters = Vec::new();
            word(i, k, &mut letters);
            let mut parsers: Vec<(mtl::Parser<'static>, &'static str, u8)> = Vec::new();
            let mut history = String::new();
            for l in letters {
                if l < 5 {
                    parsers.push((mtl::Parser::new(SOME[l]), SOME[l], 0));
                    history += &format!("p{} = Parser::new({:?}); ", parsers.len() - 1, SOME[l]);
                } else {
                    let Some(p) = parsers.get_mut(l - 5) else { return Ok(()) };
                    history += &format!("p{}.parse_mtlset(); ", l - 5);
                    let got = guarded(|| p.0.parse_mtlset()).or_else(|e| fail(&history, e))?;
                    ctx.traces += 1;
                    ctx.count(got.is_ok());
                    match p.2 {
                        0 => {
                            p.2 = if got.is_ok() { 1 } else { 2 };
                            expect_mtl(&history, p.1, got)?;
                        }
                        1 => match got {
                            Ok(set) if set.materials.is_empty() => {}
                            other => return fail(&history, format!("an exhausted parser gives {:?}", other)),
                        },
                        _ => {}
                    }
                }
            }
            ctx.sample(&history);
            Ok(())
        },
    )
}

/// One thread after the other, and many calls in a row on one thread.
pub fn threads_and_long_histories() -> Item {
    let n = TEXTS.len() as u64;
    Item::new(
        "calls/threads-and-long-histories",
        "every ordered pair of texts: the first one parsed 50 times on this thread and once on a new one, then the second one on a new thread and on this one",
        n * n,
        move |i, ctx| {
            let [a, b] = digits(i, [n, n]);
            let ((am, at), (bm, bt)) = (TEXTS[a], TEXTS[b]);
            let history = format!("parse {:?} 50 times and on another thread, then {:?}", at, bt);
            for _ in 0..50 {
                ctx.traces += 1;
                enter_pool(&history, 0, am, at)?;
            }
            let there = |m: bool, t: &'static str| -> Result<(), Fail> {
                let h = history.clone();
                match std::thread::spawn(move || enter_pool(&h, 0, m, t)).join() {
                    Ok(r) => r,
                    Err(_) => fail(&history, "panicked on another thread"),
                }
            };
            there(am, at)?;
            there(bm, bt)?;
            ctx.traces += 3;
            enter_pool(&history, 0, bm, bt)?;
            ctx.count(true);
            Ok(())
        },
    )
}

/// Large parses, successful or not, and each text of the pool after them.
pub fn after_large() -> Item {
    let large: Vec<(bool, &'static str, fn(usize) -> String)> = crate::objspace::dimensions().into_iter().map(|d| (false, d.0, d.1)).chain(crate::mtlspace::dimensions().into_iter().map(|d| (true, d.0, d.1))).collect();
    let counts = [20usize, 300, 3000];
    let radix = [counts.len() as u64, large.len() as u64, TEXTS.len() as u64];
    Item::new(
        "calls/after-large",
        format!("{} things that can repeat, each {:?} times in a text, and each of {} texts parsed after it, on the same thread", radix[1], counts, radix[2]),
        radix.iter().product(),
        move |i, ctx| {
            let [n, which, t] = digits(i, radix);
            let (first, name, make) = large[which];
            let text = make(counts[n]);
            let (is_mtl, small) = TEXTS[t];
            let history = format!("parse {} {} ({}), then {:?}", counts[n], name, if first { "mtl" } else { "obj" }, small);
            ctx.traces += 2;
            ctx.sample(&history);
            ctx.count(true);
            if first {
                let _ = guarded(|| mtl::parse(&text).is_ok()).or_else(|p| fail(&history, p))?;
            } else {
                let _ = guarded(|| obj::parse(&text).is_ok()).or_else(|p| fail(&history, p))?;
            }
            enter_pool(&history, 0, is_mtl, small)
        },
    )
}

/// A text and, after it, each text of a space, through two entry points.
pub fn twice(space: Space) -> Item {
    let text = space.text.clone();
    Item::new(format!("calls/twice/{}", space.name), format!("parsed by obj::parse, a parser, a clone of a parser and with other parses nested in the conversion to a string: {}", space.bound), space.len, move |i, ctx| {
        let mut input = String::new();
        text(i, &mut input);
        ctx.traces += 4;
        ctx.sample(&input);
        let ok = model::obj(&input, ctx).is_ok();
        ctx.count(ok);
        let first = enter(&input, 0, false, &input)?;
        for entry in [3, 5, 4] {
            let other = enter(&input, entry, false, &input)?;
            if other != first {
                return fail(&input, format!("parsed in two ways: {} and {}", first, other));
            }
        }
        Ok(())
    })
}

/// Any text of a space after any other.
pub fn one_after_another(is_mtl: bool, space: Space) -> Item {
    let n = space.len;
    let text = space.text.clone();
    let texts: Vec<String> = (0..n)
        .map(|i| {
            let mut t = String::new();
            text(i, &mut t);
            t
        })
        .collect();
    let shown: Vec<std::sync::OnceLock<String>> = (0..n).map(|_| std::sync::OnceLock::new()).collect();
    Item::new(format!("calls/one-after-another/{}", space.name), format!("all pairs of texts parsed one after another: {}", space.bound), n * n, move |i, ctx| {
        let (a, b) = (&texts[(i / n) as usize], &texts[(i % n) as usize]);
        ctx.traces += 2;
        if i % n == 0 {
            ctx.sample(a);
        }
        let history = || format!("parse {:?}; parse {:?}", a, b);
        let show = |t: &str| {
            guarded(|| {
                if is_mtl {
                    let got = mtl::parse(t);
                    format!("{:?}", got)
                } else {
                    let got = obj::parse(t);
                    format!("{:?}", got)
                }
            })
            .map_err(|p| Fail { input: history(), detail: p })
        };
        if i / n == i % n {
            enter(&history(), 0, is_mtl, a)?;
            enter(&history(), 3, is_mtl, b)?;
        }
        let _ = show(a)?;
        let second = show(b)?;
        let first = shown[(i % n) as usize].get_or_init(|| second.clone());
        if *first != second {
            return fail(&history(), format!("the second one gives {}, but at another time {}", second, first));
        }
        // Whichever came first is right.
        let slot = &shown[(i % n) as usize];
        if slot.get().map_or(false, |_| i / n == 0 || i / n == n - 1) {
            enter(&history(), 0, is_mtl, b)?;
        }
        Ok(())
    })
}

/// A text parsed very many times in a row.
pub fn long_histories() -> Item {
    let times = [300u32, 5000, 70_000];
    let radix = [times.len() as u64, TEXTS.len() as u64];
    Item::new("calls/long-histories", format!("each of {} texts parsed {:?} times, then every text once", radix[1], times), radix.iter().product(), move |i, ctx| {
        let [n, t] = digits(i, radix);
        let (is_mtl, text) = TEXTS[t];
        let history = format!("parse {:?} {} times, then all texts", text, times[n]);
        let mut first = None;
        for _ in 0..times[n] {
            ctx.traces += 1;
            let same = if is_mtl {
                let got = guarded(|| mtl::parse(text)).or_else(|p| fail(&history, p))?;
                first.get_or_insert_with(|| Call::Mtl(got.clone())) == &Call::Mtl(got)
            } else {
                let got = guarded(|| obj::parse(text)).or_else(|p| fail(&history, p))?;
                first.get_or_insert_with(|| Call::Obj(got.clone())) == &Call::Obj(got)
            };
            if !same {
                return fail(&history, format!("parsing {:?} again gives another result", text));
            }
        }
        for (m, t) in TEXTS {
            ctx.traces += 1;
            enter_pool(&history, 0, m, t)?;
        }
        ctx.count(true);
        ctx.sample(&history);
        Ok(())
    })
}

/// What a parse call returned.
#[derive(PartialEq)]
enum Call {
    Obj(Result<obj::ObjectSet, obj::ParseError>),
    Mtl(Result<mtl::MaterialSet, mtl::ParseError>),
}

fn call(is_mtl: bool, text: &str) -> Result<Call, String> {
    if is_mtl {
        guarded(|| mtl::parse(text)).map(Call::Mtl)
    } else {
        guarded(|| obj::parse(text)).map(Call::Obj)
    }
}

/// Texts for interleaved parses: few allocations, much state.
type Shared = (bool, &'static str);
const SHARED: [Shared; 8] = [
    (false, "mtllib a\no x\nv 1 2 3\nvt 1\ng q\ns 1\nusemtl m\nl 1/1 1/1\n"),
    (false, "v 7 8 9\nv 1 1 1\nvn 1 2 3\nf 1//1 2//-1 -1//1\no z\nv 4 4 4\np -1\n"),
    (false, "\n\nv 1 2 3\ns 2\nzz\n"),
    (false, "mtllib b c\nv 1 2 3\ng r\nf 1 1 1 1\n\nf 1 2 1\n"),
    (true, "newmtl a\nKa 1 2 3\nillum 0\nmap_Ka x\nnewmtl b\nd 0.5\n"),
    (true, "newmtl c\nNs 4\nbump y\n"),
    (true, "\nnewmtl d\nmap_Kd z\n\nillum 7\n"),
    (false, "o s\nvt 1\nvt 2\nv 5 6 7\np 1 1\n"),
];

fn plan_text(texts: &[Shared], at: At, plan: &[crate::sched::Stretch]) -> String {
    let mut s = String::from("parses at the same time:");
    for (n, t) in texts.iter().enumerate() {
        s += &format!(" thread {} parses {:?}{}", n, t.1, if t.0 { " (mtl)" } else { "" });
    }
    s += "; schedule:";
    for stretch in plan {
        s += &match stretch.until {
            crate::sched::END => format!(" thread {} to its end", stretch.thread),
            n => format!(" thread {} to its {} {},", stretch.thread, at.what(), n),
        };
    }
    s
}

/// Run the parses of these texts under every plan.
fn interleave(texts: &[Shared], at: At, most: u32, plans: impl Fn(&[u32]) -> Vec<Vec<crate::sched::Stretch>>, ctx: &mut Ctx) -> Result<(), Fail> {
    use crate::sched::{Schedule, Stretch, END};
    let mut alone: Vec<Call> = Vec::new();
    let mut points = Vec::new();
    for t in texts {
        let schedule = Schedule::new(vec![Stretch { thread: 0, until: END }], at);
        let got = schedule.run(0, || call(t.0, t.1)).or_else(|p| fail(t.1, p))?;
        match &got {
            Call::Obj(got) => expect_obj(t.1, t.1, got.clone())?,
            Call::Mtl(got) => expect_mtl(t.1, t.1, got.clone())?,
        }
        points.push(schedule.points(0).min(most));
        alone.push(got);
    }
    for plan in plans(&points) {
        if crate::sched::released() > crate::sched::MAX_RELEASED {
            break;
        }
        let code = texts.iter().map(|t| -> Box<dyn FnOnce() -> Result<Call, String> + Send> { let (m, text) = *t; Box::new(move || call(m, text)) }).collect();
        let results = crate::sched::together(plan.clone(), at, code);
        ctx.schedules += 1;
        ctx.traces += texts.len() as u64;
        for (n, result) in results.into_iter().enumerate() {
            match result {
                Err(p) => return fail(&plan_text(texts, at, &plan), p),
                Ok(got) if got == alone[n] => {}
                Ok(_) => return fail(&plan_text(texts, at, &plan), format!("thread {} gets another result than alone", n)),
            }
        }
        ctx.sample(&plan_text(texts, at, &plan));
    }
    ctx.count(true);
    Ok(())
}

/// Preemption points considered per parse.
const POINTS: u64 = 48;

pub fn interleavings_of_two(max: u32, at: At) -> Item {
    let n = SHARED.len() as u64;
    let radix = [n, n, 2, POINTS + 1];
    Item::new(
        "calls/interleavings-of-two",
        format!("two parses on two threads, every ordered pair of {} texts, all interleavings at the (first {}) points ({}s) of the library with at most {} preemptions", n, POINTS, at.what(), max),
        radix.iter().product(),
        move |i, ctx| {
            let [a, b, first, start] = digits(i, radix);
            interleave(&[SHARED[a], SHARED[b]], at, POINTS as u32, |points| crate::sched::two([points[0], points[1]], max, first, start as u32), ctx)
        },
    )
}

pub fn interleavings_of_three(n: u64) -> Item {
    let radix = [n, n, n, 6, POINTS];
    Item::new(
        "calls/interleavings-of-three",
        format!("three parses on three threads, every choice of {} texts in order, all interleavings at the (first {}) allocations of the library with 2 preemptions before a parse is complete", n, POINTS),
        radix.iter().product(),
        move |i, ctx| {
            let [a, b, c, order, first] = digits(i, radix);
            interleave(&[SHARED[a], SHARED[b], SHARED[c]], At::Allocations, POINTS as u32, |points| crate::sched::three([points[0], points[1], points[2]], order, first as u32 + 1), ctx)
        },
    )
}

/// Short texts, for schedules at every edge.
const TINY: [Shared; 7] = [
    (false, "p 1"),
    (false, "v 1 2 3\n"),
    (false, "\nzz\n"),
    (false, "o a\ng b\n"),
    (true, "newmtl a\nd 2\n"),
    (true, "\nzz"),
    (true, "newmtl b\nillum 1\n"),
];

/// Edges considered per parse.
const EDGES: u64 = 12_000;

/// Two parses, interleaved at the edges of the control flow of the library
/// (in the metered build; there are no points otherwise).
pub fn interleavings_at_edges(texts: &'static [Shared], max: u32) -> Item {
    let n = texts.len() as u64;
    let radix = [n, n, 2, EDGES + 1];
    Item::new(
        format!("calls/interleavings-at-edges-{}", max),
        format!("two parses on two threads, every ordered pair of {} texts, all interleavings at the (first {}) edges of the control flow graph of the library with at most {} preemptions", n, EDGES, max),
        radix.iter().product(),
        move |i, ctx| {
            let [a, b, first, start] = digits(i, radix);
            interleave(&[texts[a], texts[b]], At::Edges, EDGES as u32, |points| crate::sched::two([points[0], points[1]], max, first, start as u32), ctx)
        },
    )
}

pub fn shared() -> &'static [Shared] {
    &SHARED
}
pub fn tiny() -> &'static [Shared] {
    &TINY
}
