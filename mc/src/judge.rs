//! Compares what the implementation does with a text with what the reference
//! model says about it, under the projection ("aspects") of a property.

use crate::engine::{guarded, Ctx, Fail};
use crate::model::{self, MErr, Mix};
use wavefront_obj::{mtl, obj};

// What to compare. Acceptance is always compared.
pub const LIBS: u32 = 1;
pub const NAMES: u32 = 2;
pub const VERTS: u32 = 4;
pub const ELEMS: u32 = 8;
pub const GROUPS: u32 = 16;
pub const SMOOTH: u32 = 32;
pub const GEOM: u32 = 64;
pub const LINE: u32 = 128;
pub const KIND: u32 = 256;
pub const TEXT: u32 = 512;
/// Only termination without a panic; the model is not consulted.
pub const TOTAL: u32 = 1024;
/// Errors are compared only by the line.
pub const CONTENT: u32 = LIBS | NAMES | VERTS | ELEMS | GROUPS | SMOOTH | GEOM;

pub fn fail<T>(input: &str, detail: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { input: input.to_string(), detail: detail.into() })
}

fn show(bytes: &[u8]) -> String {
    let text = String::from_utf8_lossy(bytes);
    if text.len() > 200 {
        format!("{:?}... ({} bytes)", text.chars().take(60).collect::<String>(), bytes.len())
    } else {
        format!("{:?}", text)
    }
}

pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

fn kind_bit(kind: &obj::ErrorKind) -> u32 {
    match kind {
        obj::ErrorKind::EndOfFile => model::EOF,
        obj::ErrorKind::ExpectedTagStatement => model::TAG,
        obj::ErrorKind::ExpectedFloat => model::FLOAT,
        obj::ErrorKind::ExpectedInteger => model::INT,
        obj::ErrorKind::ExpectedVTNIndex => model::VTN,
        obj::ErrorKind::VTNIndexOutOfRange => model::OOR,
        obj::ErrorKind::EveryFaceElementMustHaveAtLeastThreeVertices => model::FACE3,
        obj::ErrorKind::EveryVTNIndexMustHaveTheSameFormForAGivenElement => model::FORM,
        obj::ErrorKind::InvalidObjectStatement => model::INVALID,
        obj::ErrorKind::ElementMustBeAPointLineOrFace => model::PLF,
        obj::ErrorKind::SmoothingGroupNameMustBeOffOrInteger => model::SGNAME,
        obj::ErrorKind::SmoothingGroupDeclarationHasNoName => model::SGNONE,
        obj::ErrorKind::MaterialStatementHasNoName => model::MTLNAME,
        #[allow(unreachable_patterns)]
        _ => 0,
    }
}

/// The names of the kinds in a set, for messages.
pub fn kind_names(kinds: u32) -> String {
    const NAMES: [&str; 16] = [
        "EndOfFile",
        "ExpectedTagStatement",
        "ExpectedFloat",
        "ExpectedInteger",
        "ExpectedVTNIndex",
        "VTNIndexOutOfRange",
        "EveryFaceElementMustHaveAtLeastThreeVertices",
        "EveryVTNIndexMustHaveTheSameFormForAGivenElement",
        "InvalidObjectStatement",
        "ElementMustBeAPointLineOrFace",
        "SmoothingGroupNameMustBeOffOrInteger",
        "SmoothingGroupDeclarationHasNoName",
        "MaterialStatementHasNoName",
        "ExpectedEndOfInput",
        "UnknownIlluminationModel",
        "ErrorParsingMaterial",
    ];
    let names: Vec<&str> = (0..16).filter(|i| kinds & (1 << i) != 0).map(|i| NAMES[i]).collect();
    names.join(" or ")
}

/// The kind of an MTL error (its fields are private, its Debug form is not).
fn mtl_kind(error: &mtl::ParseError) -> u32 {
    const NAMES: [(&str, u32); 7] = [
        ("EndOfFile", model::EOF),
        ("ExpectedTagStatement", model::TAG),
        ("ExpectedFloat", model::FLOAT),
        ("ExpectedInteger", model::INT),
        ("ExpectedEndOfInput", model::END),
        ("UnknownIlluminationModel", model::ILLUM),
        ("ErrorParsingMaterial", model::MATERIAL),
    ];
    let text = format!("{:?}", error);
    let mut best = (usize::MAX, 0);
    for (name, bit) in NAMES {
        if let Some(at) = text.find(name) {
            if at < best.0 {
                best = (at, bit);
            }
        }
    }
    best.1
}

/// The first number in a displayed error.
pub fn shown_line(text: &[u8]) -> Option<usize> {
    let start = text.iter().position(|b| b.is_ascii_digit())?;
    let digits = text[start..].iter().take_while(|b| b.is_ascii_digit()).count();
    std::str::from_utf8(&text[start..start + digits]).ok()?.parse().ok()
}

/// Is the text valid UTF-8? (Strings built unchecked may not be.)
fn valid(s: &str) -> bool {
    // The compiler may assume that a str is valid; go through a raw copy.
    let bytes: Vec<u8> = s.as_bytes().to_vec();
    std::str::from_utf8(std::hint::black_box(&bytes)).is_ok()
}

fn list<'a, A: AsRef<[u8]>>(what: &str, input: &str, got: impl ExactSizeIterator<Item = A>, want: &[&'a str]) -> Result<(), Fail> {
    if got.len() != want.len() {
        return fail(input, format!("{}: {} entries instead of {}", what, got.len(), want.len()));
    }
    for (i, (g, w)) in got.zip(want).enumerate() {
        if g.as_ref() != w.as_bytes() {
            return fail(input, format!("{}: entry {} is {} instead of {:?}", what, i, show(g.as_ref()), w));
        }
    }
    Ok(())
}

fn ix(i: &obj::VTNIndex) -> model::Ix {
    match *i {
        obj::VTNIndex::V(v) => model::Ix { v, t: None, n: None },
        obj::VTNIndex::VT(v, t) => model::Ix { v, t: Some(t), n: None },
        obj::VTNIndex::VN(v, n) => model::Ix { v, t: None, n: Some(n) },
        obj::VTNIndex::VTN(v, t, n) => model::Ix { v, t: Some(t), n: Some(n) },
    }
}

pub fn shape(e: &obj::Element) -> model::Shape {
    match e {
        obj::Element::Point(a) => model::Shape::P(ix(a)),
        obj::Element::Line(a, b) => model::Shape::L(ix(a), ix(b)),
        obj::Element::Face(a, b, c) => model::Shape::F(ix(a), ix(b), ix(c)),
    }
}

fn compare_object(input: &str, number: usize, got: &obj::Object, want: &model::Obj, aspects: u32) -> Result<(), Fail> {
    let at = |what: &str| format!("object {} {}", number, what);
    if aspects & NAMES != 0 && got.name.as_bytes() != want.name.as_bytes() {
        return fail(input, format!("{} is {} instead of {:?}", at("name"), show(got.name.as_bytes()), want.name));
    }
    if aspects & VERTS != 0 {
        let sizes = (got.vertex_set.len(), got.texture_vertex_set.len(), got.normal_vertex_set.len());
        let wanted = (want.v.len(), want.vt.len(), want.vn.len());
        if sizes != wanted {
            return fail(input, format!("{} {:?} instead of {:?}", at("numbers of v, vt, vn:"), sizes, wanted));
        }
        for (i, (g, w)) in got.vertex_set.iter().zip(&want.v).enumerate() {
            let g = [g.x, g.y, g.z, g.w];
            if (0..4).any(|k| !same(g[k], w[k])) {
                return fail(input, format!("{} {} is {:?} instead of {:?}", at("vertex"), i, g, w));
            }
        }
        for (i, (g, w)) in got.texture_vertex_set.iter().zip(&want.vt).enumerate() {
            let g = [g.u, g.v, g.w];
            if (0..3).any(|k| !same(g[k], w[k])) {
                return fail(input, format!("{} {} is {:?} instead of {:?}", at("texture vertex"), i, g, w));
            }
        }
        for (i, (g, w)) in got.normal_vertex_set.iter().zip(&want.vn).enumerate() {
            let g = [g.x, g.y, g.z];
            if (0..3).any(|k| !same(g[k], w[k])) {
                return fail(input, format!("{} {} is {:?} instead of {:?}", at("normal"), i, g, w));
            }
        }
    }
    if aspects & ELEMS != 0 {
        if got.element_set.len() != want.elems.len() {
            return fail(input, format!("{} {} instead of {}", at("elements:"), got.element_set.len(), want.elems.len()));
        }
        for (i, (g, w)) in got.element_set.iter().zip(&want.elems).enumerate() {
            let g = shape(g);
            if g != w.shape {
                return fail(input, format!("{} {} is {:?} instead of {:?}", at("element"), i, g, w.shape));
            }
        }
    }
    if aspects & (GROUPS | SMOOTH) != 0 {
        if got.shape_set.len() != want.elems.len() {
            return fail(input, format!("{} {} instead of {}", at("grouping entries:"), got.shape_set.len(), want.elems.len()));
        }
        for (i, g) in got.shape_set.iter().enumerate() {
            if g.element != i {
                return fail(input, format!("{} {} is for element {}", at("grouping entry"), i, g.element));
            }
        }
    }
    if aspects & GROUPS != 0 {
        list(&at("groups"), input, got.group_set.iter().map(|g| g.0.as_bytes()), &want.groups)?;
        for (i, (g, w)) in got.shape_set.iter().zip(&want.elems).enumerate() {
            let names = &want.groups[w.groups.0..w.groups.1];
            let ok = g.groups.len() == names.len()
                && g.groups.iter().zip(names).all(|(&k, n)| got.group_set.get(k).map_or(false, |x| x.0.as_bytes() == n.as_bytes()));
            if !ok {
                return fail(input, format!("{} {} is in groups {:?} instead of {:?}", at("element"), i, g.groups, names));
            }
        }
    }
    if aspects & SMOOTH != 0 {
        let values: Vec<usize> = got.smoothing_group_set.iter().map(|s| s.0).collect();
        if values != want.smooth {
            return fail(input, format!("{} {:?} instead of {:?}", at("smoothing groups:"), values, want.smooth));
        }
        for (i, (g, w)) in got.shape_set.iter().zip(&want.elems).enumerate() {
            if values.get(g.smoothing_group) != Some(&want.smooth[w.smooth]) {
                return fail(input, format!("{} {} has smoothing entry {} instead of {}", at("element"), i, g.smoothing_group, w.smooth));
            }
        }
    }
    if aspects & GEOM != 0 {
        let wanted = want.geometries();
        if got.geometry_set.len() != wanted.len() {
            return fail(input, format!("{} {} instead of {}", at("geometries:"), got.geometry_set.len(), wanted.len()));
        }
        for (i, (g, w)) in got.geometry_set.iter().zip(&wanted).enumerate() {
            if g.material_name.as_ref().map(|m| m.as_bytes()) != w.0.map(|m| m.as_bytes()) {
                let shown = g.material_name.as_ref().map(|m| show(m.as_bytes()));
                return fail(input, format!("{} {} has material {:?} instead of {:?}", at("geometry"), i, shown, w.0));
            }
            if g.shapes.len() != w.2 - w.1 || g.shapes.iter().zip(w.1..w.2).any(|(a, b)| *a != b) {
                return fail(input, format!("{} {} has {} shapes {:?}.. instead of {}..{}", at("geometry"), i, g.shapes.len(), g.shapes.first(), w.1, w.2));
            }
        }
    }
    Ok(())
}

pub fn compare_set(input: &str, got: &obj::ObjectSet, want: &model::Set, aspects: u32) -> Result<(), Fail> {
    if aspects & LIBS != 0 {
        list("material libraries", input, got.material_libraries.iter().map(|s| s.as_bytes()), &want.libs)?;
    }
    if got.objects.len() != want.objs.len() {
        return fail(input, format!("{} objects instead of {}", got.objects.len(), want.objs.len()));
    }
    for (i, (g, w)) in got.objects.iter().zip(&want.objs).enumerate() {
        compare_object(input, i, g, w, aspects)?;
    }
    Ok(())
}

fn compare_error(input: &str, line: usize, kind: u32, want: &MErr, aspects: u32) -> Result<(), Fail> {
    if aspects & LINE != 0 && line != want.line {
        return fail(input, format!("the error is reported at line {} instead of {}", line, want.line));
    }
    if aspects & KIND != 0 && kind & want.kinds == 0 {
        return fail(
            input,
            format!("the error at line {} has kind {} instead of {}", want.line, kind_names(kind), kind_names(want.kinds)),
        );
    }
    Ok(())
}

fn check_text(input: &str, what: &str, s: &str) -> Result<(), Fail> {
    if valid(s) {
        Ok(())
    } else {
        fail(input, format!("{} is not valid UTF-8: {}", what, show(s.as_bytes())))
    }
}

fn outcome(ctx: &mut Ctx, kinds: u32, sizes: u64) {
    let mut h = Mix::new();
    h.add(kinds as u64);
    h.add(sizes);
    ctx.outcome(h.0);
}

/// Parse an OBJ text with the implementation; panics become failures.
pub fn parse_obj(input: &str) -> Result<Result<obj::ObjectSet, obj::ParseError>, Fail> {
    guarded(|| obj::parse(input)).or_else(|p| fail(input, format!("obj::parse {}", p)))
}

pub fn parse_mtl(input: &str) -> Result<Result<mtl::MaterialSet, mtl::ParseError>, Fail> {
    guarded(|| mtl::parse(input)).or_else(|p| fail(input, format!("mtl::parse {}", p)))
}

/// Judge one OBJ text.
pub fn obj(input: &str, aspects: u32, ctx: &mut Ctx) -> Result<(), Fail> {
    ctx.traces += 1;
    ctx.sample(input);
    let got = parse_obj(input)?;
    let want = model::obj(input, ctx);
    match (&got, &want) {
        _ if aspects & TOTAL != 0 => {
            ctx.count(got.is_ok());
            Ok(())
        }
        (Ok(set), Ok(wanted)) => {
            ctx.count(true);
            let elements: usize = wanted.objs.iter().map(|o| o.elems.len()).sum();
            let sizes: usize = wanted.objs.iter().map(|o| o.geometries().len() + o.groups.len() * 16 + o.smooth.len() * 256).sum();
            outcome(ctx, 0, ((wanted.objs.len() as u64) << 40) ^ ((elements as u64) << 20) ^ sizes as u64);
            compare_set(input, set, wanted, aspects)
        }
        (Err(error), Err(wanted)) => {
            ctx.count(false);
            outcome(ctx, wanted.kinds, wanted.line as u64);
            compare_error(input, error.line_number, kind_bit(&error.kind), wanted, aspects)?;
            if aspects & TEXT != 0 {
                check_text(input, "the error message", &error.message)?;
            }
            if aspects & LINE != 0 {
                let shown = guarded(|| error.to_string()).or_else(|p| fail(input, p))?;
                if shown_line(shown.as_bytes()) != Some(wanted.line) || !shown.contains(&error.message) {
                    return fail(input, format!("the displayed error {:?} does not show line {} and its message", shown, wanted.line));
                }
            }
            Ok(())
        }
        (Ok(_), Err(wanted)) => fail(
            input,
            format!("accepted, but line {} is faulty ({})", wanted.line, kind_names(wanted.kinds)),
        ),
        (Err(error), Ok(_)) => fail(input, format!("rejected, but nothing is wrong with it: {}", show(error.to_string().as_bytes()))),
    }
}

fn maps(m: &mtl::Material) -> [&Option<String>; 9] {
    [
        &m.map_ambient,
        &m.map_diffuse,
        &m.map_specular,
        &m.map_emissive,
        &m.map_specular_exponent,
        &m.map_bump,
        &m.map_displacement,
        &m.map_dissolve,
        &m.map_decal,
    ]
}

pub fn compare_materials(input: &str, got: &mtl::MaterialSet, want: &[model::Mat]) -> Result<(), Fail> {
    if got.materials.len() != want.len() {
        return fail(input, format!("{} materials instead of {}", got.materials.len(), want.len()));
    }
    for (i, (g, w)) in got.materials.iter().zip(want).enumerate() {
        let wrong = |what: &str| fail(input, format!("material {} has a wrong {}: expected {:?}", i, what, w));
        if g.name.as_bytes() != w.name.as_bytes() {
            return wrong("name");
        }
        let colors = [&g.color_ambient, &g.color_diffuse, &g.color_specular, &g.color_emissive];
        for (k, c) in colors.iter().enumerate() {
            if !same(c.r, w.colors[k][0]) || !same(c.g, w.colors[k][1]) || !same(c.b, w.colors[k][2]) {
                return wrong(["Ka", "Kd", "Ks", "Ke"][k]);
            }
        }
        if !same(g.specular_exponent, w.ns) {
            return wrong("Ns");
        }
        if !same(g.dissolve, w.d) {
            return wrong("d");
        }
        match (g.optical_density, w.ni) {
            (None, None) => {}
            (Some(a), Some(b)) if same(a, b) => {}
            _ => return wrong("Ni"),
        }
        let illum = match g.illumination_model {
            mtl::IlluminationModel::Ambient => 0,
            mtl::IlluminationModel::AmbientDiffuse => 1,
            mtl::IlluminationModel::AmbientDiffuseSpecular => 2,
            #[allow(unreachable_patterns)]
            _ => 99,
        };
        if illum != w.illum {
            return wrong("illum");
        }
        for (k, m) in maps(g).iter().enumerate() {
            if m.as_ref().map(|s| s.as_bytes()) != w.maps[k].map(|s| s.as_bytes()) {
                return wrong(model::MAPS[k].0);
            }
        }
    }
    Ok(())
}

/// Judge one MTL text.
pub fn mtl(input: &str, aspects: u32, ctx: &mut Ctx) -> Result<(), Fail> {
    ctx.traces += 1;
    ctx.sample(input);
    let got = parse_mtl(input)?;
    let want = model::mtl(input, ctx);
    match (&got, &want) {
        _ if aspects & TOTAL != 0 => {
            ctx.count(got.is_ok());
            Ok(())
        }
        (Ok(set), Ok(wanted)) => {
            ctx.count(true);
            outcome(ctx, 0, wanted.iter().map(|m| 1 + m.maps.iter().flatten().count() as u64 * 64).sum());
            if aspects & CONTENT != 0 {
                compare_materials(input, set, wanted)?;
            }
            Ok(())
        }
        (Err(error), Err(wanted)) => {
            ctx.count(false);
            outcome(ctx, wanted.kinds, wanted.line as u64);
            if aspects & (LINE | KIND | TEXT) != 0 {
                let shown = guarded(|| error.to_string()).or_else(|p| fail(input, p))?;
                if aspects & TEXT != 0 {
                    check_text(input, "the displayed error", &shown)?;
                }
                let line = shown_line(shown.as_bytes()).unwrap_or(0);
                let kind = if aspects & KIND != 0 { mtl_kind(error) } else { 0 };
                compare_error(input, line, kind, wanted, aspects)?;
            }
            Ok(())
        }
        (Ok(_), Err(wanted)) => fail(
            input,
            format!("accepted, but line {} is faulty ({})", wanted.line, kind_names(wanted.kinds)),
        ),
        (Err(error), Ok(_)) => fail(input, format!("rejected, but nothing is wrong with it: {}", show(error.to_string().as_bytes()))),
    }
}

/// Everything an index refers to exists and looking it up finds it.
pub fn integrity(input: &str, set: &obj::ObjectSet) -> Result<(), Fail> {
    for (k, o) in set.objects.iter().enumerate() {
        let bad = |what: String| fail(input, format!("object {}: {}", k, what));
        if o.shape_set.len() != o.element_set.len() {
            return bad(format!("{} elements but {} grouping entries", o.element_set.len(), o.shape_set.len()));
        }
        for (i, e) in o.element_set.iter().enumerate() {
            let ixs = match e {
                obj::Element::Point(a) => vec![*a],
                obj::Element::Line(a, b) => vec![*a, *b],
                obj::Element::Face(a, b, c) => vec![*a, *b, *c],
            };
            for x in ixs {
                lookup(input, o, x)?;
                if o.get_vtn_triple(x).is_none() {
                    return bad(format!("element {} refers to {:?}, which does not exist", i, x));
                }
            }
        }
        for (i, s) in o.shape_set.iter().enumerate() {
            if s.element != i {
                return bad(format!("grouping entry {} is for element {}", i, s.element));
            }
            if s.groups.is_empty() || s.groups.iter().any(|&g| g >= o.group_set.len()) {
                return bad(format!("grouping entry {} has groups {:?} of {}", i, s.groups, o.group_set.len()));
            }
            if s.smoothing_group >= o.smoothing_group_set.len() {
                return bad(format!("grouping entry {} has smoothing group {} of {}", i, s.smoothing_group, o.smoothing_group_set.len()));
            }
        }
        let mut seen = vec![false; o.shape_set.len()];
        for (i, g) in o.geometry_set.iter().enumerate() {
            for &s in &g.shapes {
                if s >= seen.len() || std::mem::replace(&mut seen[s], true) {
                    return bad(format!("geometry {} refers to shape {} of {} (missing or in two geometries)", i, s, o.shape_set.len()));
                }
            }
        }
        if let Some(i) = seen.iter().position(|s| !s) {
            return bad(format!("element {} is in no geometry", i));
        }
    }
    Ok(())
}

/// Look up one index in an object and compare with the lists themselves.
pub fn lookup(input: &str, o: &obj::Object, x: obj::VTNIndex) -> Result<(), Fail> {
    let i = ix(&x);
    let v = o.vertex_set.get(i.v);
    let t = i.t.map(|t| o.texture_vertex_set.get(t));
    let n = i.n.map(|n| o.normal_vertex_set.get(n));
    let found = v.is_some() && t.map_or(true, |t| t.is_some()) && n.map_or(true, |n| n.is_some());
    let got = guarded(|| o.get_vtn_triple(x)).or_else(|p| fail(input, format!("looking up {:?} {}", x, p)))?;
    let ok = match (got, found) {
        (None, false) => true,
        (Some(triple), true) => {
            let parts = match triple {
                obj::VTNTriple::V(v) => (v, None, None),
                obj::VTNTriple::VT(v, t) => (v, Some(t), None),
                obj::VTNTriple::VN(v, n) => (v, None, Some(n)),
                obj::VTNTriple::VTN(v, t, n) => (v, Some(t), Some(n)),
            };
            let (wt, wn) = (t.flatten(), n.flatten());
            // The very items of the lists, not merely equal ones.
            std::ptr::eq(parts.0, v.unwrap())
                && parts.1.map(|p| p as *const _) == wt.map(|p| p as *const _)
                && parts.2.map(|p| p as *const _) == wn.map(|p| p as *const _)
        }
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        fail(input, format!("looking up {:?} finds {:?}, expected {}", x, got, if found { "the items it denotes" } else { "nothing" }))
    }
}
