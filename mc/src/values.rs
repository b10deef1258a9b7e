//! Parsed values as values: equality, copies, and how they differ.

use crate::engine::{guarded, Ctx, Fail, Item};
use crate::judge::fail;
use crate::model;
use crate::space::*;
use std::sync::{Arc, OnceLock};
use wavefront_obj::{mtl, obj};

// Equality by content, written out field by field.

fn vertices(a: &[obj::Vertex], b: &[obj::Vertex]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w)
}
fn textures(a: &[obj::TextureVertex], b: &[obj::TextureVertex]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.u == b.u && a.v == b.v && a.w == b.w)
}
fn normals(a: &[obj::NormalVertex], b: &[obj::NormalVertex]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.x == b.x && a.y == b.y && a.z == b.z)
}
type Parts = (u8, usize, Option<usize>, Option<usize>);
fn parts(i: &obj::VTNIndex) -> Parts {
    use obj::VTNIndex::*;
    match *i {
        V(v) => (0, v, None, None),
        VT(v, t) => (1, v, Some(t), None),
        VN(v, n) => (2, v, None, Some(n)),
        VTN(v, t, n) => (3, v, Some(t), Some(n)),
    }
}
fn corners(e: &obj::Element) -> (u8, Vec<Parts>) {
    use obj::Element::*;
    match e {
        Point(a) => (0, vec![parts(a)]),
        Line(a, b) => (1, vec![parts(a), parts(b)]),
        Face(a, b, c) => (2, vec![parts(a), parts(b), parts(c)]),
    }
}
fn bytes(a: &str, b: &str) -> bool {
    a.as_bytes() == b.as_bytes()
}
fn option(a: &Option<String>, b: &Option<String>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => bytes(a, b),
        (None, None) => true,
        _ => false,
    }
}
fn object(a: &obj::Object, b: &obj::Object) -> bool {
    bytes(&a.name, &b.name)
        && vertices(&a.vertex_set, &b.vertex_set)
        && textures(&a.texture_vertex_set, &b.texture_vertex_set)
        && normals(&a.normal_vertex_set, &b.normal_vertex_set)
        && a.group_set.len() == b.group_set.len()
        && a.group_set.iter().zip(&b.group_set).all(|(a, b)| bytes(&a.0, &b.0))
        && a.smoothing_group_set.len() == b.smoothing_group_set.len()
        && a.smoothing_group_set.iter().zip(&b.smoothing_group_set).all(|(a, b)| a.0 == b.0)
        && a.element_set.len() == b.element_set.len()
        && a.element_set.iter().zip(&b.element_set).all(|(a, b)| corners(a) == corners(b))
        && a.shape_set.len() == b.shape_set.len()
        && a.shape_set.iter().zip(&b.shape_set).all(|(a, b)| a.element == b.element && a.groups[..] == b.groups[..] && a.smoothing_group == b.smoothing_group)
        && a.geometry_set.len() == b.geometry_set.len()
        && a.geometry_set.iter().zip(&b.geometry_set).all(|(a, b)| option(&a.material_name, &b.material_name) && a.shapes[..] == b.shapes[..])
}
fn set(a: &obj::ObjectSet, b: &obj::ObjectSet) -> bool {
    a.material_libraries.len() == b.material_libraries.len()
        && a.material_libraries.iter().zip(&b.material_libraries).all(|(a, b)| bytes(a, b))
        && a.objects.len() == b.objects.len()
        && a.objects.iter().zip(&b.objects).all(|(a, b)| object(a, b))
}
fn color(a: &mtl::Color, b: &mtl::Color) -> bool {
    a.r == b.r && a.g == b.g && a.b == b.b
}
fn illumination(m: &mtl::IlluminationModel) -> u8 {
    match m {
        mtl::IlluminationModel::Ambient => 0,
        mtl::IlluminationModel::AmbientDiffuse => 1,
        mtl::IlluminationModel::AmbientDiffuseSpecular => 2,
    }
}
fn material(a: &mtl::Material, b: &mtl::Material) -> bool {
    let scalar = |a: Option<f64>, b: Option<f64>| match (a, b) {
        (Some(a), Some(b)) => a == b,
        (None, None) => true,
        _ => false,
    };
    bytes(&a.name, &b.name)
        && color(&a.color_ambient, &b.color_ambient)
        && color(&a.color_diffuse, &b.color_diffuse)
        && color(&a.color_specular, &b.color_specular)
        && color(&a.color_emissive, &b.color_emissive)
        && a.specular_exponent == b.specular_exponent
        && a.dissolve == b.dissolve
        && scalar(a.optical_density, b.optical_density)
        && illumination(&a.illumination_model) == illumination(&b.illumination_model)
        && option(&a.map_ambient, &b.map_ambient)
        && option(&a.map_diffuse, &b.map_diffuse)
        && option(&a.map_specular, &b.map_specular)
        && option(&a.map_emissive, &b.map_emissive)
        && option(&a.map_specular_exponent, &b.map_specular_exponent)
        && option(&a.map_bump, &b.map_bump)
        && option(&a.map_displacement, &b.map_displacement)
        && option(&a.map_dissolve, &b.map_dissolve)
        && option(&a.map_decal, &b.map_decal)
}

#[derive(Clone)]
enum Value {
    Obj(obj::ObjectSet),
    ObjError(obj::ParseError),
    Mtl(mtl::MaterialSet),
    /// The error and how it is shown: its fields are private.
    MtlError(mtl::ParseError, String),
}
use Value::*;

fn value(is_mtl: bool, text: &str) -> Option<Value> {
    guarded(|| {
        if is_mtl {
            mtl::parse(text).map_or_else(
                |e| {
                    let shown = format!("{:?} {}", e, e);
                    MtlError(e, shown)
                },
                Mtl,
            )
        } else {
            obj::parse(text).map_or_else(ObjError, Obj)
        }
    })
    .ok()
}

/// What the library's comparison says, and what the content says. Errors of
/// different formats and values of different types have no comparison.
fn compare(a: &Value, b: &Value) -> Option<(bool, bool, bool)> {
    Some(match (a, b) {
        (Obj(a), Obj(b)) => (a == b, a != b, set(a, b)),
        (Mtl(a), Mtl(b)) => (a == b, a != b, a.materials.len() == b.materials.len() && a.materials.iter().zip(&b.materials).all(|(a, b)| material(a, b))),
        (ObjError(a), ObjError(b)) => (a == b, a != b, a.line_number == b.line_number && format!("{:?}", a.kind) == format!("{:?}", b.kind) && bytes(&a.message, &b.message)),
        (MtlError(a, s), MtlError(b, t)) => (a == b, a != b, bytes(s, t)),
        _ => return None,
    })
}

fn judge_pair(name: &str, a: &Value, b: &Value) -> Result<(), Fail> {
    let Ok(result) = guarded(|| compare(a, b)) else { return fail(name, "comparing the results panics") };
    match result {
        Some((equal, unequal, content)) if equal != content || unequal == content => {
            fail(name, format!("the results are {} but == gives {} and != gives {}", if content { "equal" } else { "different" }, equal, unequal))
        }
        _ => Ok(()),
    }
}

fn has_nan(v: &Value) -> bool {
    match guarded(|| compare(v, v)) {
        Ok(Some((_, _, content))) => !content,
        _ => false,
    }
}

/// The parts of equal results are equal, too, and a copy is equal and apart.
fn judge_copy(name: &str, a: &Value) -> Result<(), Fail> {
    let Ok(copy) = guarded(|| a.clone()) else { return fail(name, "copying the result panics") };
    let same = match (a, &copy) {
        // Bit by bit, so that NaN does not matter.
        (Obj(_), _) | (Mtl(_), _) if has_nan(a) => format_value(a) == format_value(&copy),
        (a, copy) => compare(a, copy).map_or(false, |c| c.2),
    };
    if !same {
        return fail(name, "a copy of the result differs from it");
    }
    judge_pair(name, a, &copy)?;
    if let (MtlError(e, shown), MtlError(c, _)) = (a, &copy) {
        if format!("{:?} {}", c, c) != *shown || e != c {
            return fail(name, "a copy of the error differs from it");
        }
    }
    if let (Obj(a), Obj(b)) = (a, &copy) {
        let pairs = || {
            for (a, b) in a.objects.iter().zip(&b.objects) {
                if object(a, b) != (a == b) {
                    return Some("an object");
                }
                if a.shape_set.iter().zip(&b.shape_set).any(|(a, b)| a != b) {
                    return Some("a grouping entry");
                }
                if a.geometry_set.iter().zip(&b.geometry_set).any(|(a, b)| a != b) {
                    return Some("a geometry");
                }
            }
            None
        };
        if let Ok(Some(what)) = guarded(pairs) {
            return fail(name, format!("{} of the result is not compared by its content", what));
        }
    }
    Ok(())
}

fn format_value(v: &Value) -> String {
    match v {
        Obj(v) => format!("{:?}", v),
        Mtl(v) => format!("{:?}", v),
        ObjError(v) => format!("{:?}", v),
        MtlError(v, _) => format!("{:?}", v),
    }
}

/// All pairs of texts of a space.
pub fn pairs(is_mtl: bool, space: Space) -> Item {
    let n = space.len;
    let text = space.text.clone();
    let pool: Arc<Vec<OnceLock<Option<Value>>>> = Arc::new((0..n).map(|_| OnceLock::new()).collect());
    Item::new(format!("values/pairs/{}", space.name), format!("all pairs of results of: {}", space.bound), n * n, move |i, ctx: &mut Ctx| {
        let get = |k: u64| {
            pool[k as usize].get_or_init(|| {
                let mut t = String::new();
                text(k, &mut t);
                value(is_mtl, &t)
            })
        };
        ctx.traces += 1;
        let (a, b) = (i / n, i % n);
        let (Some(x), Some(y)) = (get(a), get(b)) else { return Ok(()) };
        if a == b {
            let mut t = String::new();
            text(a, &mut t);
            ctx.sample(&t);
            ctx.count(matches!(x, Obj(_) | Mtl(_)));
            if is_mtl {
                let _ = model::mtl(&t, ctx);
            } else {
                let _ = model::obj(&t, ctx);
            }
            judge_copy(&t, x)?;
        }
        judge_pair("", x, y).map_err(|f| {
            let (mut s, mut t) = (String::new(), String::new());
            text(a, &mut s);
            text(b, &mut t);
            Fail { input: format!("{}\n---- compared with\n{}", s, t), ..f }
        })
    })
}

/// A copy of every result is equal to it.
pub fn copies(is_mtl: bool, space: Space) -> Item {
    let text = space.text.clone();
    Item::new(format!("values/copies/{}", space.name), format!("each compared with itself and a copy: {}", space.bound), space.len, move |i, ctx: &mut Ctx| {
        let mut t = String::new();
        text(i, &mut t);
        ctx.traces += 1;
        ctx.sample(&t);
        let Some(x) = value(is_mtl, &t) else { return Ok(()) };
        ctx.count(matches!(x, Obj(_) | Mtl(_)));
        judge_copy(&t, &x)?;
        judge_pair(&t, &x, &x)
    })
}

/// Every text of a space with one text.
pub fn against(is_mtl: bool, base: &str, space: Space) -> Item {
    let text = space.text.clone();
    let base = base.to_string();
    let cell: OnceLock<Option<Value>> = OnceLock::new();
    Item::new(format!("values/edits/{}", space.name), format!("compared with the file that is edited ({:?}), and copied: {}", base.chars().take(60).collect::<String>(), space.bound), space.len, move |i, ctx: &mut Ctx| {
        let mut t = String::new();
        text(i, &mut t);
        ctx.traces += 1;
        ctx.sample(&t);
        let (Some(x), Some(y)) = (cell.get_or_init(|| value(is_mtl, &base)), value(is_mtl, &t)) else { return Ok(()) };
        ctx.count(matches!(y, Obj(_) | Mtl(_)));
        judge_copy(&t, &y)?;
        for (a, b) in [(x, &y), (&y, x)] {
            judge_pair("", a, b).map_err(|f| Fail { input: format!("{}\n---- compared with\n{}", base, t), ..f })?;
        }
        Ok(())
    })
}

fn small() -> [usize; 5] {
    [0, 1, 2, usize::MAX - 1, usize::MAX]
}

fn indices() -> Vec<obj::VTNIndex> {
    use obj::VTNIndex::*;
    let mut all = Vec::new();
    for v in small() {
        all.push(V(v));
        for t in small() {
            all.push(VT(v, t));
            all.push(VN(v, t));
            for n in small() {
                all.push(VTN(v, t, n));
            }
        }
    }
    all
}

/// All pairs of indices, and of points, lines and faces made of them.
pub fn elements() -> Item {
    let few: Vec<obj::VTNIndex> = {
        use obj::VTNIndex::*;
        vec![V(0), V(1), VT(0, 0), VT(0, 1), VN(0, 0), VN(0, 1), VTN(0, 0, 0), VTN(0, 0, 1), VTN(0, 1, 0), VTN(1, 0, 0)]
    };
    let mut all: Vec<obj::Element> = indices().into_iter().map(obj::Element::Point).collect();
    for a in &few {
        for b in &few {
            all.push(obj::Element::Line(*a, *b));
            for c in &few {
                all.push(obj::Element::Face(*a, *b, *c));
            }
        }
    }
    let n = all.len() as u64;
    Item::new("values/elements", format!("all pairs of {} points, lines and faces with all forms of indices", n), n * n, move |i, ctx: &mut Ctx| {
        let (a, b) = (&all[(i / n) as usize], &all[(i % n) as usize]);
        ctx.traces += 1;
        let (x, y) = (corners(a), corners(b));
        let Ok((equal, unequal)) = guarded(|| (a == b, a != b)) else { return fail("", "comparing elements panics") };
        if equal != (x == y) || unequal == (x == y) {
            return fail(&format!("{:?}\n---- compared with\n{:?}", a, b), format!("== gives {} and != gives {}", equal, unequal));
        }
        if let (obj::Element::Point(a), obj::Element::Point(b)) = (a, b) {
            if (a == b) != (parts(a) == parts(b)) {
                return fail(&format!("{:?}\n---- compared with\n{:?}", a, b), format!("== gives {}", a == b));
            }
        }
        Ok(())
    })
}

/// Texts that differ in single values.
pub fn close_objects() -> Space {
    let values = ["0", "1", "1.0000000000000002", "-1", "1e-320", "1e300", "inf"];
    let mut texts = Vec::new();
    for (word, k) in [("v", 3), ("v", 4), ("vt", 1), ("vt", 2), ("vt", 3), ("vn", 3)] {
        for place in 0..k {
            for value in values.iter().chain(["nan", "-0"].iter()) {
                let mut s = String::from(word);
                for p in 0..k {
                    s += " ";
                    s += if p == place { value } else { "2" };
                }
                texts.push(s + "\n");
            }
        }
    }
    for names in ["a", "b", "A", "a ", "a b", "b a", "a a", "ab", "é", "e\u{301}", "default", ""] {
        for statement in ["g", "usemtl", "o", "mtllib"] {
            match statement {
                "mtllib" => texts.push(format!("mtllib {}\nv 1 2 3\np 1\n", names)),
                "o" => texts.push(format!("o {}\nv 1 2 3\np 1\n", names)),
                _ => {
                    texts.push(format!("v 1 2 3\n{} {}\np 1\n", statement, names));
                    texts.push(format!("v 1 2 3\np 1\n{} {}\np 1\n", statement, names));
                }
            }
        }
    }
    for s in ["0", "1", "2", "off", "4294967296", "4294967297", "18446744073709551615"] {
        texts.push(format!("v 1 2 3\ns {}\np 1\n", s));
        texts.push(format!("v 1 2 3\np 1\ns {}\np 1\n", s));
        texts.push(format!("v 1 2 3\ns 1\ns {}\np 1\n", s));
    }
    for e in ["p 1", "p 2", "p 1 2", "p 2 1", "l 1 2", "l 2 1", "l 1 1", "l 1/1 2/1", "l 1/1 2/2", "l 1//1 2//1", "l 1//1 2//2", "f 1 2 2", "f 2 1 2", "f 2 2 1", "f 1/1 1/1 1/1", "f 1//1 1//1 1//1", "f 1/1/1 1/1/1 1/1/1", "f 1/1/1 1/1/1 1/1/2", "f 1/2/1 1/1/1 1/1/1", "f 1 1 1 1", "f 1 1 1\nf 1 1 1", "p 1\no x\np -1", ""] {
        texts.push(format!("v 1 2 3\nv 4 5 6\nvt 1\nvt 2\nvn 1 2 3\nvn 4 5 6\n{}\n", e));
        texts.push(format!("v 1 2 3\nv 4 5 6\nvt 1\nvt 2\nvn 1 2 3\nvn 4 5 6\ng a\np 1\ng b\nusemtl m\n{}\n", e));
    }
    for t in ["", "o a\n", "o a\no b\n", "o b\no a\n", "o a\no a\n", "mtllib\n", "v 1 2 3\n", "v 1 2 3\nv 1 2 3\n", "vt 1\n", "vn 1 2 3\n", "g a\n", "s 1\n", "usemtl m\n"] {
        texts.push(t.to_string());
    }
    Space::list("close-objects", "files that differ in single components, names, indices, forms, entries or statements", texts)
}

pub fn close_materials() -> Space {
    let mut texts = vec![String::new(), "newmtl a\nnewmtl b\n".into(), "newmtl b\nnewmtl a\n".into(), "newmtl a\nnewmtl a\n".into()];
    let numbers = ["0", "1", "2", "1.0000000000000002", "-1", "1e-320", "inf", "nan", "-0"];
    for c in ["Ka", "Kd", "Ks", "Ke"] {
        for place in 0..3 {
            for n in numbers {
                let mut w = ["2"; 3];
                w[place] = n;
                texts.push(format!("newmtl a\n{} {}\n", c, w.join(" ")));
            }
        }
    }
    for s in ["d", "Ns", "Ni"] {
        for n in numbers {
            texts.push(format!("newmtl a\n{} {}\n", s, n));
        }
    }
    for i in 0..3 {
        texts.push(format!("newmtl a\nillum {}\n", i));
    }
    for m in ["map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_d", "map_Bump", "bump", "disp", "decal", "newmtl"] {
        for n in ["a", "b", "A", "ab", "é", "e\u{301}"] {
            texts.push(format!("newmtl a\n{} {}\n", m, n));
            if m == "newmtl" {
                texts.push(format!("newmtl {}\n", n));
            }
        }
    }
    Space::list("mtl/close-materials", "files that differ in single properties of a material", texts)
}

/// All pairs of a list of values a caller can make.
fn made<T: PartialEq + Clone + std::fmt::Debug + Send + Sync + 'static>(what: &str, all: Vec<T>, same: fn(&T, &T) -> bool) -> Item {
    let n = all.len() as u64;
    Item::new(format!("values/made/{}", what), format!("all pairs of {} values of the type, and copies", n), n * n, move |i, ctx: &mut Ctx| {
        let (a, b) = (&all[(i / n) as usize], &all[(i % n) as usize]);
        ctx.traces += 1;
        let content = same(a, b);
        let Ok((equal, unequal)) = guarded(|| (a == b, a != b)) else { return fail(&format!("{:?}\n{:?}", a, b), "comparing panics") };
        if equal != content || unequal == content {
            return fail(&format!("{:?}\n---- compared with\n{:?}", a, b), format!("the contents are {}, but == gives {} and != gives {}", if content { "equal" } else { "different" }, equal, unequal));
        }
        if i / n == i % n {
            let Ok(copy) = guarded(|| a.clone()) else { return fail(&format!("{:?}", a), "copying panics") };
            if same(a, a) != same(a, &copy) || format!("{:?}", a) != format!("{:?}", copy) {
                return fail(&format!("{:?}\n---- copied:\n{:?}", a, copy), "a copy differs from the original");
            }
        }
        Ok(())
    })
}

fn tuples<T: Clone>(values: &[T], k: usize) -> Vec<Vec<T>> {
    let mut all = vec![vec![]];
    for _ in 0..k {
        all = all.iter().flat_map(|t: &Vec<T>| values.iter().map(move |v| t.iter().cloned().chain([v.clone()]).collect())).collect();
    }
    all
}
fn lists<T: Clone>(values: &[T], most: usize) -> Vec<Vec<T>> {
    (0..=most).flat_map(|k| tuples(values, k)).collect()
}

/// A base value with up to two fields changed, for every choice of changes.
fn changed<T: Clone>(base: &T, fields: &[Vec<Box<dyn Fn(&mut T)>>]) -> Vec<T> {
    let mut all = vec![base.clone()];
    for (i, changes) in fields.iter().enumerate() {
        for change in changes {
            let mut one = base.clone();
            change(&mut one);
            all.push(one.clone());
            for more in &fields[i + 1..] {
                for change in more {
                    let mut two = one.clone();
                    change(&mut two);
                    all.push(two);
                }
            }
        }
    }
    all
}

macro_rules! field {
    ($t:ty, $f:ident, $values:expr) => {
        $values.into_iter().map(|v| Box::new(move |x: &mut $t| x.$f = v.clone()) as Box<dyn Fn(&mut $t)>).collect::<Vec<_>>()
    };
}

/// Values of all public types, made by hand.
pub fn all_made() -> Vec<Item> {
    let four = [0.0, -0.0, 1.0, 2.0, -1.0, f64::NAN];
    let three = [0.0, -0.0, 1.0, 2.0, -1.0, f64::NAN, f64::INFINITY, 1e-320, 1.0000000000000002];
    let v = |x: f64, y: f64, z: f64, w: f64| obj::Vertex { x, y, z, w };
    let vt = |u: f64, v: f64, w: f64| obj::TextureVertex { u, v, w };
    let vn = |x: f64, y: f64, z: f64| obj::NormalVertex { x, y, z };
    let names = ["", "a", "b", "A", "ab", "a b", " a", "é", "e\u{301}"].map(String::from);
    let indices = [obj::VTNIndex::V(0), obj::VTNIndex::V(1), obj::VTNIndex::VT(0, 0), obj::VTNIndex::VN(0, 0), obj::VTNIndex::VTN(0, 0, 0)];
    let points: Vec<obj::Element> = indices.iter().map(|i| obj::Element::Point(*i)).chain([obj::Element::Line(indices[0], indices[0]), obj::Element::Face(indices[0], indices[0], indices[0])]).collect();

    let entry = |element, groups: &[usize], smoothing_group| obj::ShapeEntry { element, groups: groups.to_vec(), smoothing_group };
    let mut entries = Vec::new();
    let mut shapes = Vec::new();
    for groups in lists(&[0usize, 1, 2], 3) {
        for element in [0, 1, 2] {
            for smoothing_group in [0, 1, 2] {
                entries.push(entry(element, &groups, smoothing_group));
            }
        }
    }
    for element in &points {
        for groups in lists(&["a", "b"], 2) {
            for smoothing in lists(&[0usize, 1], 2) {
                shapes.push(obj::Shape {
                    element: *element,
                    groups: groups.iter().map(|g| obj::Group(g.to_string())).collect(),
                    smoothing_groups: smoothing.iter().map(|s| obj::SmoothingGroup(*s)).collect(),
                });
            }
        }
    }
    let mut geometries = Vec::new();
    for shapes in lists(&[0usize, 1, 2], 4) {
        for material_name in [None, Some(""), Some("a"), Some("A"), Some("b")] {
            geometries.push(obj::Geometry { material_name: material_name.map(String::from), shapes: shapes.clone() });
        }
    }

    let vs: &'static [obj::Vertex] = Box::leak(Box::new([v(0.0, 0.0, 0.0, 1.0), v(0.0, 0.0, 0.0, 1.0), v(0.0, 0.0, 0.0, 2.0), v(f64::NAN, 0.0, 0.0, 1.0)]));
    let ts: &'static [obj::TextureVertex] = Box::leak(Box::new([vt(0.0, 0.0, 0.0), vt(0.0, 0.0, 0.0), vt(0.0, 0.0, 1.0)]));
    let ns: &'static [obj::NormalVertex] = Box::leak(Box::new([vn(0.0, 0.0, 0.0), vn(0.0, 0.0, 0.0), vn(0.0, 0.0, 1.0)]));
    let mut triples = Vec::new();
    for v in vs {
        triples.push(obj::VTNTriple::V(v));
        for t in ts {
            triples.push(obj::VTNTriple::VT(v, t));
            for n in ns {
                triples.push(obj::VTNTriple::VTN(v, t, n));
            }
        }
        for n in ns {
            triples.push(obj::VTNTriple::VN(v, n));
        }
    }
    fn triple(a: &obj::VTNTriple<'static>, b: &obj::VTNTriple<'static>) -> bool {
        use obj::VTNTriple::*;
        let take = |x: &obj::VTNTriple<'static>| match *x {
            V(v) => (0, vec![*v], vec![], vec![]),
            VT(v, t) => (1, vec![*v], vec![*t], vec![]),
            VN(v, n) => (2, vec![*v], vec![], vec![*n]),
            VTN(v, t, n) => (3, vec![*v], vec![*t], vec![*n]),
        };
        let ((k, v, t, n), (l, w, u, m)) = (take(a), take(b));
        k == l && vertices(&v, &w) && textures(&t, &u) && normals(&n, &m)
    }

    let base = obj::Object {
        name: "n".into(),
        vertex_set: vec![v(1.0, 2.0, 3.0, 1.0)],
        texture_vertex_set: vec![vt(1.0, 2.0, 0.0)],
        normal_vertex_set: vec![vn(1.0, 2.0, 3.0)],
        group_set: vec![obj::Group("g".into()), obj::Group("h".into())],
        smoothing_group_set: vec![obj::SmoothingGroup(0), obj::SmoothingGroup(1)],
        element_set: vec![points[0], points[5]],
        shape_set: vec![entry(0, &[0], 0), entry(1, &[0, 1], 1)],
        geometry_set: vec![obj::Geometry { material_name: None, shapes: vec![0] }, obj::Geometry { material_name: Some("m".into()), shapes: vec![1] }],
    };
    let fields: Vec<Vec<Box<dyn Fn(&mut obj::Object)>>> = vec![
        field!(obj::Object, name, names.clone()),
        field!(obj::Object, vertex_set, lists(&[v(1.0, 2.0, 3.0, 1.0), v(1.0, 2.0, 3.0, 2.0), v(2.0, 4.0, 6.0, 2.0), v(1.0, 2.0, f64::NAN, 1.0)], 2)),
        field!(obj::Object, texture_vertex_set, lists(&[vt(1.0, 2.0, 0.0), vt(1.0, 2.0, 1.0), vt(1.0, f64::NAN, 0.0)], 2)),
        field!(obj::Object, normal_vertex_set, lists(&[vn(1.0, 2.0, 3.0), vn(-1.0, -2.0, -3.0), vn(f64::NAN, 2.0, 3.0)], 2)),
        field!(obj::Object, group_set, lists(&["g", "h", "G"].map(|n| obj::Group(n.to_string())), 2)),
        field!(obj::Object, smoothing_group_set, lists(&[0, 1, 2].map(obj::SmoothingGroup), 2)),
        field!(obj::Object, element_set, lists(&points[..], 2)),
        field!(obj::Object, shape_set, lists(&[entry(0, &[0], 0), entry(1, &[0, 1], 1), entry(1, &[1, 0], 1), entry(0, &[0], 1)], 2)),
        field!(obj::Object, geometry_set, lists(&[obj::Geometry { material_name: None, shapes: vec![0] }, obj::Geometry { material_name: Some("m".into()), shapes: vec![1] }, obj::Geometry { material_name: Some("m".into()), shapes: vec![] }], 2)),
    ];
    let one: Vec<obj::Object> = {
        let mut all = vec![base.clone(), obj::Object::default()];
        for changes in &fields {
            for change in changes.iter().take(6) {
                let mut x = base.clone();
                change(&mut x);
                all.push(x);
            }
        }
        all
    };
    let objects = changed(&base, &fields);
    // Pairs of the single changes with everything are enough for sets.
    let mut sets = Vec::new();
    for libraries in lists(&["a", "b", ""].map(String::from), 3) {
        for objects in [vec![], vec![base.clone()], vec![base.clone(), obj::Object::default()], vec![obj::Object::default(), base.clone()], vec![base.clone(), base.clone()]] {
            sets.push(obj::ObjectSet { material_libraries: libraries.clone(), objects });
        }
    }
    for a in &one {
        sets.push(obj::ObjectSet { material_libraries: vec![], objects: vec![a.clone()] });
        sets.push(obj::ObjectSet { material_libraries: vec![], objects: vec![base.clone(), a.clone()] });
        sets.push(obj::ObjectSet { material_libraries: vec![], objects: vec![a.clone(), base.clone()] });
    }

    use obj::ErrorKind::*;
    let mut errors = Vec::new();
    for kind in [
        EndOfFile,
        ExpectedTagStatement,
        ExpectedFloat,
        ExpectedInteger,
        ExpectedVTNIndex,
        VTNIndexOutOfRange,
        EveryFaceElementMustHaveAtLeastThreeVertices,
        EveryVTNIndexMustHaveTheSameFormForAGivenElement,
        InvalidObjectStatement,
        ElementMustBeAPointLineOrFace,
        SmoothingGroupNameMustBeOffOrInteger,
        SmoothingGroupDeclarationHasNoName,
        MaterialStatementHasNoName,
    ] {
        for line_number in [0, 1, 2, usize::MAX] {
            for message in ["", "a", "A", "b"] {
                errors.push(obj::ParseError { line_number, kind: kind.clone(), message: message.to_string() });
            }
        }
    }
    fn error(a: &obj::ParseError, b: &obj::ParseError) -> bool {
        a.line_number == b.line_number && std::mem::discriminant(&a.kind) == std::mem::discriminant(&b.kind) && bytes(&a.message, &b.message)
    }

    let c = |r: f64, g: f64, b: f64| mtl::Color { r, g, b };
    let plain = mtl::parse("newmtl a\n").ok().and_then(|mut s| s.materials.pop());
    let mut items = vec![
        made("vertices", tuples(&four, 4).iter().map(|t| v(t[0], t[1], t[2], t[3])).collect(), |a, b| vertices(&[*a], &[*b])),
        made("texture-vertices", tuples(&three, 3).iter().map(|t| vt(t[0], t[1], t[2])).collect(), |a, b| textures(&[*a], &[*b])),
        made("normals", tuples(&three, 3).iter().map(|t| vn(t[0], t[1], t[2])).collect(), |a, b| normals(&[*a], &[*b])),
        made("colours", tuples(&three, 3).iter().map(|t| c(t[0], t[1], t[2])).collect(), color),
        made("groups", names.iter().cloned().map(obj::Group).collect(), |a, b| bytes(&a.0, &b.0)),
        made("smoothing-groups", [0, 1, 2, 1 << 32, usize::MAX].map(obj::SmoothingGroup).to_vec(), |a, b| a.0 == b.0),
        made("grouping-entries", entries, |a, b| a.element == b.element && a.groups[..] == b.groups[..] && a.smoothing_group == b.smoothing_group),
        made("shapes", shapes, |a, b| {
            corners(&a.element) == corners(&b.element)
                && a.groups.len() == b.groups.len()
                && a.groups.iter().zip(&b.groups).all(|(a, b)| bytes(&a.0, &b.0))
                && a.smoothing_groups.len() == b.smoothing_groups.len()
                && a.smoothing_groups.iter().zip(&b.smoothing_groups).all(|(a, b)| a.0 == b.0)
        }),
        made("geometries", geometries, |a, b| option(&a.material_name, &b.material_name) && a.shapes[..] == b.shapes[..]),
        made("triples", triples, triple),
        made("objects", objects, object),
        made("object-sets", sets, set),
        made("errors", errors, error),
        made("illumination", vec![mtl::IlluminationModel::Ambient, mtl::IlluminationModel::AmbientDiffuse, mtl::IlluminationModel::AmbientDiffuseSpecular], |a, b| illumination(a) == illumination(b)),
    ];
    if let Some(base) = plain {
        let colors = [c(0.0, 0.0, 0.0), c(1.0, 1.0, 1.0), c(1.0, 0.0, 0.0), c(0.0, 1.0, 0.0), c(0.0, 0.0, 1.0), c(f64::NAN, 0.0, 0.0)];
        let numbers = [0.0, 1.0, 2.0, f64::NAN];
        let maybe = [None, Some(0.0), Some(1.0), Some(f64::NAN)];
        let maps = [None, Some("".to_string()), Some("a".to_string()), Some("A".to_string())];
        let fields: Vec<Vec<Box<dyn Fn(&mut mtl::Material)>>> = vec![
            field!(mtl::Material, name, names.clone()),
            field!(mtl::Material, color_ambient, colors),
            field!(mtl::Material, color_diffuse, colors),
            field!(mtl::Material, color_specular, colors),
            field!(mtl::Material, color_emissive, colors),
            field!(mtl::Material, specular_exponent, numbers),
            field!(mtl::Material, dissolve, numbers),
            field!(mtl::Material, optical_density, maybe),
            field!(mtl::Material, illumination_model, [mtl::IlluminationModel::Ambient, mtl::IlluminationModel::AmbientDiffuse, mtl::IlluminationModel::AmbientDiffuseSpecular]),
            field!(mtl::Material, map_ambient, maps.clone()),
            field!(mtl::Material, map_diffuse, maps.clone()),
            field!(mtl::Material, map_specular, maps.clone()),
            field!(mtl::Material, map_emissive, maps.clone()),
            field!(mtl::Material, map_specular_exponent, maps.clone()),
            field!(mtl::Material, map_bump, maps.clone()),
            field!(mtl::Material, map_displacement, maps.clone()),
            field!(mtl::Material, map_dissolve, maps.clone()),
            field!(mtl::Material, map_decal, maps.clone()),
        ];
        let all = changed(&base, &fields);
        let sets = lists(&all[..12], 2).into_iter().map(|materials| mtl::MaterialSet { materials }).collect();
        items.push(made("materials", all, material));
        items.push(made("material-sets", sets, |a: &mtl::MaterialSet, b| a.materials.len() == b.materials.len() && a.materials.iter().zip(&b.materials).all(|(a, b)| material(a, b))));
    }
    items.push(made_orders());
    items
}

/// The orders and hashes that some types have agree with their contents.
fn made_orders() -> Item {
    use mtl::IlluminationModel::*;
    use std::hash::{Hash, Hasher};
    let values = [f64::NEG_INFINITY, -1.0, -0.0, 0.0, 1.0, 2.0, f64::NAN];
    let colors: Vec<mtl::Color> = tuples(&values, 3).iter().map(|t| mtl::Color { r: t[0], g: t[1], b: t[2] }).collect();
    let n = colors.len() as u64;
    Item::new("values/made/orders", format!("all pairs of {} colours in order, the models in order, all pairs of MTL error kinds hashed", n), n * n + 2, move |i, ctx| {
        ctx.traces += 1;
        if i == n * n {
            let models = [Ambient, AmbientDiffuse, AmbientDiffuseSpecular];
            for (k, a) in models.iter().enumerate() {
                for (l, b) in models.iter().enumerate() {
                    if a.cmp(b) != k.cmp(&l) || a.partial_cmp(b) != Some(k.cmp(&l)) || (a < b) != (k < l) {
                        return fail(&format!("{:?}\n---- compared with\n{:?}", a, b), "the illumination models are not in the order of their numbers");
                    }
                }
            }
            return Ok(());
        }
        if i > n * n {
            use mtl::ErrorKind;
            fn check<T: Hash + Eq + Copy + std::fmt::Debug>(kinds: &[T]) -> Result<(), Fail> {
                for a in kinds {
                    for b in kinds {
                        let same = std::mem::discriminant(a) == std::mem::discriminant(b);
                        let hash = |x: &T| {
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            x.hash(&mut h);
                            h.finish()
                        };
                        if (a == b) != same || (same && hash(a) != hash(b)) {
                            return fail(&format!("{:?} compared with {:?}", a, b), "the error kinds are not compared or hashed by what they are");
                        }
                    }
                }
                Ok(())
            }
            return check(&[
                ErrorKind::EndOfFile,
                ErrorKind::ExpectedTagStatement,
                ErrorKind::ExpectedFloat,
                ErrorKind::ExpectedInteger,
                ErrorKind::ExpectedEndOfInput,
                ErrorKind::UnknownIlluminationModel,
                ErrorKind::ErrorParsingMaterial,
            ]);
        }
        let (a, b) = (&colors[(i / n) as usize], &colors[(i % n) as usize]);
        let want = [a.r, a.g, a.b].partial_cmp(&[b.r, b.g, b.b]);
        if a.partial_cmp(b) != want || (a < b) != (want == Some(std::cmp::Ordering::Less)) || (a >= b) != matches!(want, Some(std::cmp::Ordering::Equal | std::cmp::Ordering::Greater)) {
            return fail(&format!("{:?}\n---- compared with\n{:?}", a, b), format!("the order is {:?}, expected {:?} (components from left to right)", a.partial_cmp(b), want));
        }
        Ok(())
    })
}

/// Numbers that coincide in their lower or upper bits.
fn wide() -> Vec<usize> {
    let mut all: Vec<usize> = (0..4).collect();
    for k in [7, 8, 9, 10, 12, 15, 16, 20, 24, 31, 32, 33, 47, 48, 52, 53, 62, 63] {
        all.extend([(1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 2]);
    }
    all.extend([usize::MAX - 1, usize::MAX]);
    all
}

fn wide_floats() -> Vec<f64> {
    let mut all = vec![0.0, -0.0, f64::MIN_POSITIVE, 5e-324, 1e-323, 1e-12, 1.1e-12, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
    for x in [1.0f64, 0.1, 255.0, 256.0, 65536.0, 16777216.0, 16777217.0, 4294967296.0, 9007199254740992.0, 1e30, 1e300, 1e-30, 1e-300] {
        all.extend([x, -x, x + 1.0, x * (1.0 + 1e-12), f64::from_bits(x.to_bits() + 1), f64::from_bits(x.to_bits() - 1), f64::from_bits(x.to_bits() ^ (1 << 31)), f64::from_bits(x.to_bits() ^ (1 << 32))]);
    }
    all
}

/// Strings that differ in one place, of many lengths.
fn wide_names() -> Vec<String> {
    let mut all = Vec::new();
    for n in [0usize, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512] {
        all.push("x".repeat(n));
        for at in [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, n / 2, n.saturating_sub(2), n.saturating_sub(1)] {
            if at < n {
                for c in ["y", "X", " "] {
                    let mut s = "x".repeat(n);
                    s.replace_range(at..at + 1, c);
                    all.push(s);
                }
            }
        }
    }
    all.sort();
    all.dedup();
    all
}

/// Lists of many lengths, one place of each of which is another value.
fn wide_lists<T: Clone>(most: usize, plain: T, other: T) -> Vec<Vec<T>> {
    let mut all = Vec::new();
    for n in (0..=most).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]) {
        all.push(vec![plain.clone(); n]);
        for at in (0..n).filter(|at| n <= most || [0, 1, n / 2, n - 2, n - 1].contains(at)) {
            let mut list = vec![plain.clone(); n];
            list[at] = other.clone();
            all.push(list);
        }
    }
    all
}

/// Values of all public types over wide ranges of numbers, lengths and places.
pub fn all_wide() -> Vec<Item> {
    let (ints, floats, names) = (wide(), wide_floats(), wide_names());
    let mut indices = Vec::new();
    for &k in &ints {
        use obj::VTNIndex::*;
        indices.extend([V(k), VT(k, 1), VT(1, k), VN(k, 1), VN(1, k), VTN(k, 1, 1), VTN(1, k, 1), VTN(1, 1, k)]);
    }
    let mut elements = Vec::new();
    for &k in &ints {
        use obj::{Element::*, VTNIndex::*};
        elements.extend([Line(V(k), V(1)), Line(V(1), V(k)), Face(V(k), V(1), V(1)), Face(V(1), V(k), V(1)), Face(V(1), V(1), V(k)), Face(VTN(1, 1, 1), VTN(1, k, 1), VTN(1, 1, 1)), Face(VTN(1, 1, 1), VTN(1, 1, 1), VTN(1, 1, k))]);
    }
    let v = |x: f64, y: f64, z: f64, w: f64| obj::Vertex { x, y, z, w };
    let vt = |u: f64, v: f64, w: f64| obj::TextureVertex { u, v, w };
    let vn = |x: f64, y: f64, z: f64| obj::NormalVertex { x, y, z };
    let c = |r: f64, g: f64, b: f64| mtl::Color { r, g, b };
    let spread = |k: usize| -> Vec<Vec<f64>> {
        (0..k)
            .flat_map(|at| {
                floats.iter().map(move |&x| {
                    let mut t = vec![1.0; k];
                    t[at] = x;
                    t
                })
            })
            .collect()
    };
    let mut errors = Vec::new();
    for &line_number in &ints {
        errors.push(obj::ParseError { line_number, kind: obj::ErrorKind::ExpectedFloat, message: "a".into() });
    }
    for message in &names {
        errors.push(obj::ParseError { line_number: 1, kind: obj::ErrorKind::ExpectedFloat, message: message.clone() });
    }
    fn error(a: &obj::ParseError, b: &obj::ParseError) -> bool {
        a.line_number == b.line_number && std::mem::discriminant(&a.kind) == std::mem::discriminant(&b.kind) && bytes(&a.message, &b.message)
    }
    let mut entries = Vec::new();
    for &k in &ints {
        entries.push(obj::ShapeEntry { element: k, groups: vec![1], smoothing_group: 1 });
        entries.push(obj::ShapeEntry { element: 1, groups: vec![k], smoothing_group: 1 });
        entries.push(obj::ShapeEntry { element: 1, groups: vec![1], smoothing_group: k });
    }
    for groups in wide_lists(20, 1usize, 2) {
        entries.push(obj::ShapeEntry { element: 1, groups, smoothing_group: 1 });
    }
    let mut geometries = Vec::new();
    for name in names.iter().map(|n| Some(n.clone())).chain([None]) {
        geometries.push(obj::Geometry { material_name: name, shapes: vec![1] });
    }
    for shapes in wide_lists(20, 1usize, 2).into_iter().chain(ints.iter().map(|&k| vec![k])) {
        geometries.push(obj::Geometry { material_name: None, shapes });
    }
    let one = obj::Object { name: "n".into(), ..Default::default() };
    let mut objects: Vec<obj::Object> = names.iter().map(|n| obj::Object { name: n.clone(), ..one.clone() }).collect();
    objects.extend(wide_lists(20, v(1.0, 2.0, 3.0, 1.0), v(1.0, 2.0, 3.0, 2.0)).into_iter().map(|vertex_set| obj::Object { vertex_set, ..one.clone() }));
    objects.extend(wide_lists(20, vt(1.0, 2.0, 3.0), vt(1.0, 2.0, 4.0)).into_iter().map(|texture_vertex_set| obj::Object { texture_vertex_set, ..one.clone() }));
    objects.extend(wide_lists(20, vn(1.0, 2.0, 3.0), vn(1.0, 3.0, 3.0)).into_iter().map(|normal_vertex_set| obj::Object { normal_vertex_set, ..one.clone() }));
    objects.extend(wide_lists(20, obj::Group("a".into()), obj::Group("b".into())).into_iter().map(|group_set| obj::Object { group_set, ..one.clone() }));
    objects.extend(wide_lists(20, obj::SmoothingGroup(1), obj::SmoothingGroup(2)).into_iter().map(|smoothing_group_set| obj::Object { smoothing_group_set, ..one.clone() }));
    objects.extend(wide_lists(20, elements[0], elements[1]).into_iter().map(|element_set| obj::Object { element_set, ..one.clone() }));
    objects.extend(wide_lists(20, entries[0].clone(), entries[1].clone()).into_iter().map(|shape_set| obj::Object { shape_set, ..one.clone() }));
    objects.extend(wide_lists(20, geometries[0].clone(), geometries[1].clone()).into_iter().map(|geometry_set| obj::Object { geometry_set, ..one.clone() }));
    let mut sets: Vec<obj::ObjectSet> = Vec::new();
    let other = obj::Object { name: "m".into(), ..Default::default() };
    sets.extend(wide_lists(20, one.clone(), other).into_iter().map(|objects| obj::ObjectSet { material_libraries: vec![], objects }));
    sets.extend(wide_lists(20, "a".to_string(), "b".to_string()).into_iter().map(|material_libraries| obj::ObjectSet { material_libraries, objects: vec![one.clone()] }));
    sets.extend(names.iter().map(|n| obj::ObjectSet { material_libraries: vec![n.clone()], objects: vec![one.clone()] }));

    let mut items = vec![
        made("wide/smoothing-groups", ints.iter().map(|&k| obj::SmoothingGroup(k)).collect(), |a, b| a.0 == b.0),
        made("wide/groups", names.iter().cloned().map(obj::Group).collect(), |a, b| bytes(&a.0, &b.0)),
        made("wide/indices", indices, |a, b| parts(a) == parts(b)),
        made("wide/elements", elements, |a, b| corners(a) == corners(b)),
        made("wide/vertices", spread(4).iter().map(|t| v(t[0], t[1], t[2], t[3])).collect(), |a, b| vertices(&[*a], &[*b])),
        made("wide/texture-vertices", spread(3).iter().map(|t| vt(t[0], t[1], t[2])).collect(), |a, b| textures(&[*a], &[*b])),
        made("wide/normals", spread(3).iter().map(|t| vn(t[0], t[1], t[2])).collect(), |a, b| normals(&[*a], &[*b])),
        made("wide/colours", spread(3).iter().map(|t| c(t[0], t[1], t[2])).collect(), color),
        made("wide/errors", errors, error),
        made("wide/grouping-entries", entries, |a, b| a.element == b.element && a.groups[..] == b.groups[..] && a.smoothing_group == b.smoothing_group),
        made("wide/geometries", geometries, |a, b| option(&a.material_name, &b.material_name) && a.shapes[..] == b.shapes[..]),
        made("wide/objects", objects, object),
        made("wide/object-sets", sets, set),
    ];
    if let Some(base) = mtl::parse("newmtl a\n").ok().and_then(|mut s| s.materials.pop()) {
        let mut all: Vec<mtl::Material> = names.iter().map(|n| mtl::Material { name: n.clone(), ..base.clone() }).collect();
        let other = all[1].clone();
        for &x in &floats {
            all.push(mtl::Material { specular_exponent: x, ..base.clone() });
            all.push(mtl::Material { dissolve: x, ..base.clone() });
            all.push(mtl::Material { optical_density: Some(x), ..base.clone() });
            all.push(mtl::Material { color_ambient: c(x, 1.0, 1.0), ..base.clone() });
            all.push(mtl::Material { color_emissive: c(1.0, 1.0, x), ..base.clone() });
        }
        for n in names.iter().step_by(5) {
            all.push(mtl::Material { map_ambient: Some(n.clone()), ..base.clone() });
            all.push(mtl::Material { map_decal: Some(n.clone()), ..base.clone() });
            all.push(mtl::Material { map_bump: Some(n.clone()), ..base.clone() });
        }
        items.push(made("wide/materials", all, material));
        let sets = wide_lists(20, base, other).into_iter().map(|materials| mtl::MaterialSet { materials }).collect();
        items.push(made("wide/material-sets", sets, |a: &mtl::MaterialSet, b| a.materials.len() == b.materials.len() && a.materials.iter().zip(&b.materials).all(|(a, b)| material(a, b))));
    }
    items
}

/// Faults on lines with many numbers.
pub fn faults_at_lines(is_mtl: bool) -> Space {
    let mut texts = Vec::new();
    let faults: &[&str] = if is_mtl { &["zz\n", "newmtl\n", "newmtl a\nd x\n"] } else { &["zz\n", "v 1 2\n", "p x\n"] };
    for fault in faults {
        for n in (0..40).chain([99, 100, 101, 127, 128, 255, 256, 257, 258, 511, 512, 513, 999, 1000, 1001, 4095, 4096, 65535, 65536, 65537]) {
            texts.push("\n".repeat(n) + fault);
        }
    }
    Space::list(if is_mtl { "mtl/faults-at-lines" } else { "faults-at-lines" }, "faults on lines with numbers up to 65538", texts)
}
