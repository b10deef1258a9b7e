//! What each property's check explores.

use crate::cost;
use crate::engine::{Ctx, Fail, Item};
use crate::extra as x;
use crate::judge::{self, fail, parse_mtl};
use crate::objspace as o;
use crate::mtlspace as m;
use crate::space::Space;
use crate::sched::At;
use crate::special as s;
use crate::values;

pub const IDS: [&str; 22] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22",
];

/// OBJ texts judged against the model under a projection.
fn obj(space: Space, aspects: u32) -> Item {
    let text = space.text.clone();
    Item::new(space.name.clone(), space.bound.clone(), space.len, move |i, ctx| {
        let mut input = String::new();
        text(i, &mut input);
        judge::obj(&input, aspects, ctx)
    })
}

fn mtl(space: Space, aspects: u32) -> Item {
    let text = space.text.clone();
    Item::new(space.name.clone(), space.bound.clone(), space.len, move |i, ctx| {
        let mut input = String::new();
        text(i, &mut input);
        judge::mtl(&input, aspects, ctx)
    })
}

/// The part that every OBJ property is checked on: broad, medium depth.
fn common(aspects: u32, deep: bool) -> Vec<Item> {
    let d = deep as u32;
    vec![
        obj(o::all_statements(4 + d), aspects),
        obj(o::no_prefix(4 + d), aspects),
        obj(x::similar_items(3), aspects),
        obj(x::similar_names(3 + d), aspects),
        obj(x::near_words(), aspects),
        obj(o::all_statements_named(3 + d), aspects),
        obj(o::grouping_state(5 + d), aspects),
        obj(o::relayout(o::all_statements(3)), aspects),
        obj(o::relayout(o::grouping_state(4)), aspects),
        obj(o::state_repeats(2 + d, &[3, 17, 40, 300]), aspects),
        obj(o::sizes(if deep { 1100 } else { 140 }, if deep { 17 } else { 16 }), aspects),
        obj(o::shared_lines(4 + d), aspects),
        obj(o::assets(deep), aspects),
        obj(o::name_coincidences(), aspects),
        obj(x::features(deep), aspects),
        obj(x::meshes(deep), aspects),
        obj(x::after_many(deep), aspects),
        obj(x::crossed(if deep { 480 } else { 16 }, false), aspects),
        obj(x::alternations(8 + 2 * d), aspects),
        obj(x::long_words(if deep { 300 } else { 70 }, deep), aspects),
        obj(x::blank_runs(if deep { 150 } else { 40 }), aspects),
        obj(x::line_runs(if deep { 150 } else { 40 }), aspects),
    ]
}

/// The part that every MTL property is checked on.
fn mtl_common(aspects: u32, deep: bool) -> Vec<Item> {
    let d = deep as u32;
    vec![
        mtl(m::histories(4 + d), aspects),
        mtl(m::deep_histories(6 + d), aspects),
        mtl(x::mtl_values(3 + d), aspects),
        mtl(x::mtl_near_words(), aspects),
        mtl(m::carry_over(), aspects),
        mtl(x::mtl_meshes(deep), aspects),
        mtl(x::mtl_after_many(deep), aspects),
        mtl(x::mtl_crossed(if deep { 2400 } else { 48 }, false), aspects),
        mtl(x::mtl_alternations(8 + 2 * d), aspects),
        mtl(m::subsets(), aspects),
        mtl(m::sizes(if deep { 1100 } else { 140 }, if deep { 18 } else { 16 }), aspects),
        mtl(m::shared_lines(4 + d), aspects),
        mtl(x::mtl_long_words(if deep { 300 } else { 70 }, deep), aspects),
        mtl(x::mtl_blank_runs(if deep { 150 } else { 40 }), aspects),
        mtl(x::mtl_line_runs(if deep { 150 } else { 40 }), aspects),
    ]
}

/// Texts in which the faults of the format occur.
fn faulty(aspects: u32, deep: bool) -> Vec<Item> {
    let d = deep as u32;
    let mut items = vec![
        obj(o::faults(), aspects),
        obj(o::fault_pairs(), aspects),
        obj(o::fault_lines(4), aspects),
        obj(o::unknown_statements(3), aspects),
        obj(o::component_counts(), aspects),
        obj(o::word_edits(o::base_files()), aspects),
        obj(o::character_edits(o::base_files()), aspects),
        obj(o::word_salad(4 + d), aspects),
        obj(o::index_words(5 + d), aspects),
        obj(o::special_number_words(), aspects),
        obj(x::number_insertions(), aspects),
        obj(x::literals(), aspects),
        obj(x::foreign_words(), aspects),
        obj(x::rich_faults(), aspects),
        obj(x::crossed(if deep { 48 } else { 2 }, true), aspects),
        obj(x::comment_lines(3 + d), aspects),
        obj(o::character_edit_pairs("o a\nv 1 2 3\nf 1 1/ 1\n"), aspects),
        obj(o::word_edit_pairs("v 1 2 3\ng a\np 1\n"), aspects),
    ];
    if deep {
        items.push(obj(o::word_edit_pairs(o::base_files()[3]), aspects));
        items.push(obj(o::word_edit_pairs(o::base_files()[4]), aspects));
        items.push(obj(o::character_edit_pairs("mtllib a\no x\nv 1 2 3\ns 1\nusemtl m\nl 1 1\n"), aspects));
    }
    items
}

fn mtl_faulty(aspects: u32, deep: bool) -> Vec<Item> {
    let d = deep as u32;
    let chars = |files: Vec<&str>| {
        let space = o::character_edits(files);
        Space { name: format!("mtl/{}", space.name), ..space }
    };
    let pairs = |file: &str| {
        let space = o::character_edit_pairs(file);
        Space { name: format!("mtl/{}", space.name), ..space }
    };
    let mut items = vec![
        mtl(m::faults(), aspects),
        mtl(m::fault_pairs(), aspects),
        mtl(m::fault_lines(4 + d), aspects),
        mtl(m::unknown_statements(3), aspects),
        mtl(m::word_edits(m::base_files()), aspects),
        mtl(chars(m::base_files()), aspects),
        mtl(m::word_salad(4 + d), aspects),
        mtl(m::special_number_words(), aspects),
        mtl(x::mtl_number_insertions(), aspects),
        mtl(x::mtl_literals(), aspects),
        mtl(x::mtl_foreign_words(), aspects),
        mtl(x::mtl_rich_faults(), aspects),
        mtl(x::mtl_crossed(if deep { 240 } else { 6 }, true), aspects),
        mtl(x::mtl_comment_lines(3 + d), aspects),
        mtl(pairs("newmtl a\nd 1\nbump b\n"), aspects),
        mtl(m::word_edit_pairs("newmtl a\nKa 1 2 3\nd 1\n"), aspects),
    ];
    if deep {
        items.push(mtl(m::word_edit_pairs(m::base_files()[2]), aspects));
        items.push(mtl(pairs("newmtl a\nillum 1\nKs 1 2 3\nNi 2\n"), aspects));
    }
    items
}

/// The texts of a space, followed by a faulty statement on a line of its own.
fn then(space: Space, faults: &'static [&'static str]) -> Space {
    let text = space.text.clone();
    let n = faults.len() as u64;
    Space::new(format!("{}/then-fault", space.name), format!("{}; then each of {} faulty statements", space.bound, n), space.len * n, move |i, out| {
        text(i / n, out);
        if !out.is_empty() {
            out.push('\n');
        }
        *out += faults[(i % n) as usize];
        out.push('\n');
    })
}

/// `Tf` is documented in GRAMMAR.md but rejected: a listed finding.
pub const TF: &str = "Tf";

fn transmission_filter() -> Item {
    let texts = ["newmtl m\nTf 0.1 0.2 0.3\n", "newmtl m\nKa 1 2 3\nTf 1 1 1\nd 0.5\n", "newmtl m\nTf 0 0 0"];
    Item::new("mtl/transmission-filter", "documented `Tf r g b` statements in 3 contexts", texts.len() as u64, move |i, ctx: &mut Ctx| -> Result<(), Fail> {
        let text = texts[i as usize];
        ctx.traces += 1;
        ctx.sample(text);
        let got = parse_mtl(text)?;
        ctx.count(got.is_ok());
        if got.is_err() {
            if ctx.listed(TF) {
                ctx.known(TF);
            } else {
                return fail(text, "rejected, but the documented grammar has the statement `Tf r g b`");
            }
        }
        Ok(())
    })
}

pub fn items(id: &str, deep: bool) -> Vec<Item> {
    use judge::{CONTENT, ELEMS, GEOM, GROUPS, KIND, LIBS, LINE, NAMES, SMOOTH, TEXT, TOTAL, VERTS};
    let d = deep as u32;
    let mut items = Vec::new();
    match id {
        "C01" => {
            items.push(obj(o::raw_texts(6 + d), TOTAL));
            items.push(mtl(m::raw_texts(6 + d), TOTAL));
            items.extend(common(TOTAL, deep));
            items.extend(mtl_common(TOTAL, deep));
            items.extend(faulty(TOTAL, deep));
            items.push(obj(o::index_tuples(5), TOTAL));
            items.extend(mtl_faulty(TOTAL, deep));
            items.push(obj(o::index_values(false), TOTAL));
            items.push(obj(o::number_words(5), TOTAL));
            items.push(mtl(m::number_words(5), TOTAL));
            items.push(obj(o::tricky_names(2 + d), TOTAL));
            items.push(mtl(m::tricky_names(2 + d), TOTAL));
            items.push(obj(o::scalar_names(), TOTAL));
            items.push(obj(o::sizes_at(&[(1 << 20) + 1]), TOTAL));
            items.push(mtl(m::sizes_at(&[(1 << 20) + 1]), TOTAL));
            items.push(s::placed());
            items.push(s::at_the_edge());
        }
        "C02" => {
            items.push(s::layout_uniform(false));
            items.push(s::layout_deviations(true, 1));
            items.push(s::layout_deviations(deep, 2));
            items.push(obj(s::comment_bodies(3 + d), CONTENT));
            items.push(obj(x::scalar_comments(), CONTENT));
            items.push(obj(x::comment_lines(4), CONTENT));
            items.push(mtl(x::mtl_comment_lines(4), CONTENT));
            items.push(mtl(x::mtl_scalar_comments(), CONTENT));
            items.push(mtl(s::mtl_comment_bodies(3 + d), CONTENT));
            items.push(obj(o::relayout(o::all_statements(4)), CONTENT));
            items.push(obj(o::relayout(o::no_prefix(3 + d)), CONTENT));
            items.push(obj(o::relayout(o::all_statements_named(2 + d)), CONTENT));
            items.push(mtl(o::relayout(m::histories(3 + d)), CONTENT));
            items.push(obj(o::relayout(o::faults()), CONTENT));
            items.push(mtl(o::relayout(m::faults()), CONTENT));
            items.push(obj(o::sizes(if deep { 1100 } else { 140 }, 16), CONTENT));
            items.push(mtl(m::sizes(if deep { 1100 } else { 140 }, 16), CONTENT));
            items.push(obj(o::character_edits(o::base_files()), CONTENT));
            items.push(obj(x::blank_runs(if deep { 300 } else { 140 }), CONTENT));
            items.push(mtl(x::mtl_blank_runs(if deep { 300 } else { 140 }), CONTENT));
            items.push(obj(x::line_runs(if deep { 300 } else { 140 }), CONTENT));
            items.push(mtl(x::mtl_line_runs(if deep { 300 } else { 140 }), CONTENT));
            items.push(obj(x::long_words(70, deep), CONTENT));
            if deep {
                items.push(s::layout_uniform(true));
                items.push(s::layout_deviations(false, 3));
            }
        }
        "C03" => {
            items.push(obj(o::vertices(6), VERTS));
            items.push(obj(o::value_products(), VERTS));
            items.push(obj(o::component_counts(), VERTS));
            items.push(obj(o::number_words(5 + d), VERTS));
            items.push(obj(o::special_number_words(), VERTS));
            items.push(obj(x::number_insertions(), VERTS));
            items.push(obj(x::literals(), VERTS));
            items.push(obj(x::similar_items(4), VERTS));
            items.push(obj(o::decimals(if deep { 100_000_000 } else { 10_000_000 }), VERTS));
            items.extend(common(VERTS, deep));
            items.extend(faulty(VERTS, deep));
        }
        "C04" => {
            items.push(obj(o::index_edges(6 + d), VERTS | ELEMS));
            items.push(obj(o::index_values(deep), ELEMS));
            items.push(obj(o::far_indices(if deep { 70_000 } else { 20_000 }), ELEMS));
            items.push(obj(o::index_words(6 + d), ELEMS));
            items.push(obj(o::index_tuples(5), ELEMS));
            items.extend(common(ELEMS, deep));
            items.extend(faulty(ELEMS, deep));
        }
        "C05" => {
            items.push(obj(o::index_tuples(5 + d), ELEMS));
            items.push(obj(o::repeated_indices(if deep { 12 } else { 9 }), ELEMS));
            items.push(obj(o::index_words(6 + d), ELEMS));
            items.extend(common(ELEMS, deep));
            items.extend(faulty(ELEMS, deep));
            items.push(obj(o::faults(), ELEMS));
        }
        "C06" => {
            items.push(obj(o::groups(7 + d), GROUPS));
            items.extend(common(GROUPS, deep));
            items.extend(faulty(GROUPS, deep));
            items.push(obj(o::keyword_names(), GROUPS));
            items.push(obj(x::ascii_names(2), GROUPS));
            items.push(obj(o::tricky_names(3), GROUPS));
            items.push(obj(o::grouping_state(6 + d), GROUPS));
        }
        "C07" => {
            items.push(obj(o::smoothing(7 + d), SMOOTH));
            items.extend(common(SMOOTH, deep));
            items.extend(faulty(SMOOTH, deep));
            items.push(obj(smoothing_words(5), SMOOTH));
            items.push(obj(o::number_words(4 + d), SMOOTH));
            items.push(obj(o::special_number_words(), SMOOTH));
            items.push(obj(x::number_insertions(), SMOOTH));
            items.push(obj(x::foreign_words(), SMOOTH));
            items.push(obj(o::grouping_state(6 + d), SMOOTH));
        }
        "C08" => {
            items.push(obj(o::materials(7 + d), GEOM));
            items.extend(common(GEOM, deep));
            items.extend(faulty(GEOM, deep));
            items.push(obj(o::keyword_names(), GEOM));
            items.push(obj(x::ascii_names(2), GEOM));
            items.push(obj(o::tricky_names(3), GEOM));
            items.push(obj(o::grouping_state(6 + d), GEOM));
        }
        "C09" => {
            items.push(obj(o::objects(6 + d), CONTENT));
            items.push(s::concatenation(2));
            items.push(s::concatenation(3));
            if deep {
                items.push(s::concatenation(4));
            }
            items.extend(common(CONTENT, deep));
            items.extend(faulty(CONTENT, deep));
            items.push(obj(o::keyword_names(), NAMES));
            items.push(obj(x::ascii_names(2), NAMES));
            items.push(obj(o::tricky_names(3), NAMES));
            items.push(obj(o::index_values(false), CONTENT));
        }
        "C10" => {
            items.push(obj(o::libraries(6), CONTENT));
            items.push(obj(o::relayout(o::libraries(4)), CONTENT));
            items.extend(common(LIBS, deep));
            items.extend(faulty(LIBS, deep));
            items.push(obj(o::keyword_names(), LIBS));
            items.push(obj(x::foreign_words(), LIBS));
            items.push(obj(x::ascii_names(2), LIBS));
            items.push(obj(o::tricky_names(3), LIBS));
            items.push(obj(o::faults(), LIBS));
            items.push(obj(o::word_edits(o::base_files()), LIBS));
        }
        "C11" => {
            items.extend(faulty(CONTENT, deep));
            items.push(obj(o::index_tuples(5), CONTENT));
            items.extend(common(CONTENT, deep));
            items.push(obj(o::libraries(5), CONTENT));
            items.push(obj(o::number_words(5), CONTENT));
            items.push(obj(o::raw_texts(6 + d), CONTENT));
            items.push(obj(o::index_edges(6), CONTENT));
            items.push(obj(o::relayout(o::faults()), CONTENT));
        }
        "C12" => {
            items.extend(faulty(LINE | KIND, deep));
            items.push(obj(o::index_tuples(5), LINE | KIND));
            items.extend(common(LINE | KIND, deep));
            items.push(obj(o::relayout(o::faults()), LINE | KIND));
            items.push(obj(o::fault_lines(5), LINE | KIND));
            items.push(obj(o::index_values(false), LINE | KIND));
            items.push(obj(o::number_words(5), LINE | KIND));
            items.push(obj(o::libraries(4 + d), LINE | KIND));
            items.push(obj(o::raw_texts(6 + d), LINE | KIND));
            items.push(obj(o::tricky_names(2), LINE | KIND));
            for space in [
                o::sizes(if deep { 300 } else { 70 }, if deep { 16 } else { 13 }),
                x::line_runs(if deep { 150 } else { 40 }),
                x::blank_runs(if deep { 150 } else { 40 }),
                x::long_words(if deep { 300 } else { 70 }, false),
                x::meshes(false),
                x::features(false),
                x::comment_lines(3),
                o::state_repeats(2, &[3, 17, 40, 300]),
                o::relayout(o::all_statements(2)),
                o::relayout(o::grouping_state(3)),
                o::all_statements(3 + d),
                o::grouping_state(5),
                o::objects(4 + d),
                o::libraries(3 + d),
                o::keyword_names(),
                o::assets(false),
            ] {
                items.push(obj(then(space, &["zz", "v 1 2", "f 1 1", "usemtl", "p 99999999"]), LINE | KIND));
            }
        }
        "C13" => {
            items.extend(mtl_common(CONTENT, deep));
            items.extend(mtl_faulty(CONTENT, deep));
            items.push(mtl(o::relayout(m::histories(3)), CONTENT));
            items.push(mtl(m::number_words(5), CONTENT));
            items.push(mtl(m::special_number_words(), CONTENT));
            items.push(mtl(x::mtl_number_insertions(), CONTENT));
            items.push(mtl(x::mtl_literals(), CONTENT));
            items.push(mtl(m::decimals(if deep { 100_000_000 } else { 10_000_000 }), CONTENT));
            items.push(mtl(m::keyword_names(), CONTENT));
            items.push(mtl(m::tricky_names(3), CONTENT));
            items.push(mtl(x::mtl_ascii_names(2), CONTENT));
        }
        "C14" => {
            items.push(transmission_filter());
            items.extend(mtl_faulty(CONTENT, deep));
            items.extend(mtl_common(CONTENT, deep));
            items.push(mtl(m::number_words(5 + d), CONTENT));
            items.push(mtl(m::raw_texts(6 + d), CONTENT));
            items.push(mtl(o::relayout(m::faults()), CONTENT));
            items.push(mtl(m::keyword_names(), CONTENT));
        }
        "C15" => {
            items.extend(mtl_faulty(LINE | KIND, deep));
            items.extend(mtl_common(LINE | KIND, deep));
            items.push(mtl(o::relayout(m::faults()), LINE | KIND));
            items.push(mtl(m::fault_lines(5), LINE | KIND));
            items.push(mtl(m::number_words(5), LINE | KIND));
            items.push(mtl(m::raw_texts(6 + d), LINE | KIND));
            items.push(mtl(m::tricky_names(2), LINE | KIND));
            for space in [
                m::sizes(if deep { 300 } else { 70 }, if deep { 16 } else { 13 }),
                x::mtl_line_runs(if deep { 150 } else { 40 }),
                x::mtl_blank_runs(if deep { 150 } else { 40 }),
                x::mtl_long_words(if deep { 300 } else { 70 }, false),
                x::mtl_meshes(false),
                x::mtl_comment_lines(3),
                x::mtl_values(2 + d),
                m::subsets(),
                m::carry_over(),
                o::relayout(m::histories(2 + d)),
                m::histories(3),
                m::deep_histories(5),
                m::keyword_names(),
            ] {
                items.push(mtl(then(space, &["zz", "Ka 1 2", "illum 3", "newmtl"]), LINE | KIND));
            }
        }
        "C16" => {
            items.push(s::display_indices(if deep { 1 << 20 } else { 70_000 }));
            items.push(s::display(o::all_statements(3), true));
            items.push(s::display(o::grouping_state(4 + d), true));
            items.push(s::display(o::value_products(), true));
            items.push(s::display(o::special_number_words(), true));
            items.push(s::display(o::decimals(if deep { 20_000_000 } else { 2_000_000 }), true));
            items.push(s::display(o::repeated_indices(if deep { 8 } else { 5 }), true));
            items.push(s::display(o::index_tuples(4), true));
            items.push(s::display(o::keyword_names(), true));
            items.push(s::display(o::tricky_names(2), true));
            items.push(s::display(o::sizes(if deep { 60 } else { 30 }, 6), true));
            items.push(s::display(o::sizes(if deep { 1100 } else { 140 }, 12), false));
            items.push(s::display(o::objects(4 + d), true));
            items.push(s::display(o::all_statements_named(3 + d), false));
            items.push(s::display(o::assets(false), false));
            items.push(s::display(x::features(deep), false));
            items.push(s::display(x::meshes(deep), false));
            items.push(s::display(x::long_words(40, false), false));
            items.push(s::display(o::exponents(), true));
            items.push(s::display(x::literals(), true));
            items.push(s::display(x::near_words(), true));
            items.push(s::display(x::crossed(if deep { 48 } else { 4 }, false), deep));
            items.push(s::display(x::after_many(false), false));
            items.push(s::display(x::alternations(if deep { 8 } else { 7 }), true));
            items.push(s::display(x::similar_items(3), true));
            items.push(s::display(x::permutations(), false));
        }
        "C17" => {
            items.push(s::lookups());
            items.push(s::forms());
            items.push(s::closed(o::all_statements(4 + d)));
            items.push(s::closed(o::no_prefix(4 + d)));
            items.push(s::closed(o::grouping_state(6 + d)));
            items.push(s::closed(o::index_edges(6)));
            items.push(s::closed(o::index_values(false)));
            items.push(s::closed(o::objects(6)));
            items.push(s::closed(o::index_tuples(5)));
            items.push(s::closed(o::sizes(if deep { 1100 } else { 140 }, 16)));
            items.push(s::closed(o::state_repeats(2 + d, &[3, 40, 300])));
            items.push(s::closed(o::word_edits(o::base_files())));
            items.push(s::closed(o::assets(deep)));
            items.push(s::closed(o::far_indices(20_000)));
            items.push(s::closed(o::shared_lines(3 + d)));
            items.push(s::closed(x::features(deep)));
            items.push(s::closed(x::meshes(deep)));
            items.push(s::closed(x::after_many(deep)));
            items.push(s::closed(x::alternations(8 + 2 * d)));
            items.push(s::closed(x::crossed(if deep { 480 } else { 16 }, false)));
            items.push(s::closed(x::near_words()));
            items.push(s::closed(x::permutations()));
            items.push(s::closed(x::similar_items(3)));
            items.push(s::closed(x::similar_names(3 + d)));
            items.push(s::closed(o::relayout(o::all_statements(3))));
            items.push(s::closed(o::relayout(o::grouping_state(4))));
            items.push(s::closed(o::faults()));
            items.push(s::closed(o::fault_lines(4)));
            items.push(s::closed(o::index_words(5 + d)));
            items.push(s::closed(x::comment_lines(3)));
            items.push(s::closed(o::character_edits(o::base_files())));
            items.push(s::closed(o::name_coincidences()));
            items.push(s::closed(x::ascii_names(2)));
        }
        "C18" => {
            items.push(obj(o::scalar_names(), CONTENT | TEXT));
            items.push(mtl(m::scalar_names(), CONTENT | TEXT));
            items.push(obj(o::tricky_names(3 + d), CONTENT | TEXT));
            items.push(obj(x::ascii_names(2 + d), CONTENT | TEXT));
            items.push(mtl(x::mtl_ascii_names(2 + d), CONTENT | TEXT));
            items.push(mtl(m::tricky_names(3), CONTENT | TEXT));
            items.push(obj(o::keyword_names(), CONTENT | TEXT));
            items.push(obj(x::foreign_words(), CONTENT | TEXT));
            items.push(mtl(x::mtl_foreign_words(), CONTENT | TEXT));
            items.push(mtl(m::keyword_names(), CONTENT | TEXT));
            items.push(obj(o::relayout(o::keyword_names()), CONTENT | TEXT));
            items.push(obj(o::name_coincidences(), CONTENT | TEXT));
            items.push(obj(x::long_words(if deep { 300 } else { 140 }, deep), CONTENT | TEXT));
            items.push(mtl(x::mtl_long_words(if deep { 300 } else { 140 }, deep), CONTENT | TEXT));
            items.push(obj(o::sizes(if deep { 1100 } else { 140 }, if deep { 18 } else { 16 }), CONTENT | TEXT));
            items.push(mtl(m::sizes(if deep { 1100 } else { 140 }, if deep { 18 } else { 16 }), CONTENT | TEXT));
            items.push(obj(s::comment_bodies(3), CONTENT | TEXT));
            items.push(obj(o::character_edits(o::base_files()), CONTENT | TEXT));
            items.extend(common(CONTENT | TEXT, deep));
            items.extend(faulty(CONTENT | TEXT, deep));
            items.extend(mtl_common(CONTENT | TEXT, deep));
            items.extend(mtl_faulty(CONTENT | TEXT, deep));
            items.push(obj(o::scalar_faults(), TEXT));
            items.push(mtl(m::scalar_faults(), TEXT));
        }
        "C19" => {
            items.push(obj(o::number_words(5 + d), VERTS | ELEMS | SMOOTH));
            items.push(mtl(m::number_words(5 + d), CONTENT));
            items.push(obj(o::special_number_words(), VERTS | ELEMS | SMOOTH));
            items.push(obj(x::number_insertions(), VERTS | ELEMS | SMOOTH));
            items.push(obj(x::literals(), VERTS | ELEMS | SMOOTH));
            items.push(mtl(x::mtl_literals(), CONTENT));
            items.push(obj(x::foreign_words(), VERTS | ELEMS | SMOOTH));
            items.push(mtl(x::mtl_foreign_words(), CONTENT));
            items.push(mtl(x::mtl_number_insertions(), CONTENT));
            items.push(mtl(m::special_number_words(), CONTENT));
            items.push(obj(o::decimals(if deep { 200_000_000 } else { 20_000_000 }), VERTS));
            items.push(mtl(m::decimals(if deep { 200_000_000 } else { 20_000_000 }), CONTENT));
            items.push(obj(o::value_products(), VERTS));
            items.push(obj(o::index_values(false), ELEMS));
            items.push(obj(smoothing_words(5), SMOOTH));
            items.push(obj(o::index_words(4 + d), ELEMS));
            items.push(obj(o::sizes(if deep { 1100 } else { 140 }, 16), VERTS | ELEMS | SMOOTH));
            items.push(mtl(m::sizes(if deep { 1100 } else { 140 }, 16), CONTENT));
            items.push(obj(o::component_counts(), VERTS));
            items.push(obj(o::exponents(), VERTS));
            items.extend(common(VERTS | ELEMS | SMOOTH, deep));
            items.extend(faulty(VERTS | ELEMS | SMOOTH, deep));
            items.extend(mtl_common(CONTENT, deep));
            items.extend(mtl_faulty(CONTENT, deep));
        }
        "C20" => {
            items.push(s::interleavings_of_two(2, At::Allocations));
            items.push(s::interleavings_of_two(3 + d, At::AllocationsAndReleases));
            items.push(s::interleavings_of_three(8));
            items.push(s::interleavings_of_two(4, At::Allocations));
            items.push(s::call_sequences(2));
            items.push(s::call_sequences(3));
            items.push(s::reused_memory());
            items.push(s::placed());
            items.push(s::at_the_edge());
            items.push(s::parser_programs(5 + d));
            items.push(s::mtl_parser_programs(6 + d));
            items.push(s::threads_and_long_histories());
            items.push(s::after_large());
            items.push(s::long_histories());
            items.push(s::twice(o::all_statements(3)));
            items.push(s::twice(o::faults()));
            items.push(s::twice(o::word_edits(o::base_files())));
            items.push(s::one_after_another(false, values::close_objects()));
            items.push(s::one_after_another(true, values::close_materials()));
            items.push(s::one_after_another(false, o::all_statements(2)));
            items.push(s::one_after_another(true, m::histories(2)));
            items.push(s::one_after_another(false, x::permutations()));
            items.push(s::one_after_another(true, x::mtl_permutations()));
            if deep {
                items.push(s::call_sequences(4));
                items.push(s::twice(o::grouping_state(5)));
            }
        }
        // Run with the metered build of the library.
        "C20E" => {
            items.push(s::interleavings_at_edges(s::shared(), 1));
            items.push(s::interleavings_at_edges(s::tiny(), 2));
            if deep {
                items.push(s::interleavings_at_edges(s::shared(), 2));
            }
        }
        "C21" => {
            // These first: they begin with what no parse has left behind.
            let one = |space: Space| {
                (0..space.len)
                    .map(|i| {
                        let mut text = String::new();
                        (space.text)(i, &mut text);
                        text
                    })
                    .collect::<Vec<String>>()
            };
            for is_mtl in [false, true] {
                let name = if is_mtl { "mtl/" } else { "" };
                let pool = s::TEXTS.iter().filter(|t| t.0 == is_mtl).map(|t| t.1.to_string()).collect();
                items.push(cost::long_runs(&format!("{}texts", name), 16 + 2 * d, is_mtl, pool));
                let dims = if is_mtl { m::dimensions() } else { o::dimensions() };
                items.push(cost::long_runs(&format!("{}repeated", name), 12 + d, is_mtl, dims.iter().map(|d| (d.1)(3)).collect()));
                items.push(cost::long_runs(&format!("{}histories", name), 10 + 2 * d, is_mtl, if is_mtl { one(m::histories(2)) } else { one(o::all_statements(2)) }));
            }
            items.push(cost::long_runs("similar-names", 10, false, one(x::similar_names(2))));
            items.push(cost::long_runs("component-counts", 10, false, one(o::component_counts())));
            items.push(cost::obj(o::all_statements(3 + d)));
            items.push(cost::obj(o::no_prefix(3 + d)));
            items.push(cost::obj(o::grouping_state(4 + d)));
            items.push(cost::obj(o::state_repeats(2, &[3, 40, 300, 3000])));
            items.push(cost::obj(o::sizes(if deep { 140 } else { 20 }, 16)));
            items.push(cost::obj(o::relayout(o::all_statements(2 + d))));
            items.push(cost::obj(o::faults()));
            items.push(cost::obj(o::fault_lines(3 + d)));
            items.push(cost::obj(o::word_edits(o::base_files())));
            items.push(cost::obj(o::character_edits(o::base_files())));
            items.push(cost::obj(o::index_values(false)));
            items.push(cost::obj(o::special_number_words()));
            items.push(cost::obj(o::keyword_names()));
            items.push(cost::obj(o::shared_lines(3)));
            items.push(cost::obj(o::word_salad(3)));
            items.push(cost::obj(o::assets(false)));
            items.push(cost::obj(x::long_words(70, deep)));
            items.push(cost::obj(x::blank_runs(40)));
            items.push(cost::obj(x::line_runs(if deep { 40 } else { 8 })));
            items.push(cost::obj(x::features(false)));
            items.push(cost::obj(x::comment_lines(2)));
            items.push(cost::mtl(m::histories(3 + d)));
            items.push(cost::mtl(m::sizes(if deep { 140 } else { 20 }, 16)));
            items.push(cost::mtl(m::faults()));
            items.push(cost::mtl(m::subsets()));
            items.push(cost::mtl(m::carry_over()));
            items.push(cost::mtl(m::word_edits(m::base_files())));
            items.push(cost::mtl(x::mtl_long_words(70, deep)));
            items.push(cost::mtl(x::mtl_blank_runs(40)));
            items.push(cost::mtl(x::mtl_comment_lines(2)));
            items.push(cost::growth(false, 16 + 2 * d));
            items.push(cost::growth(true, 16 + 2 * d));
            items.push(cost::growth_laid_out(false, 14 + d));
            items.push(cost::growth_laid_out(true, 14 + d));
        }
        "C22" => {
            items.push(values::elements());
            items.extend(values::all_made());
            items.extend(values::all_wide());
            items.push(values::pairs(false, values::faults_at_lines(false)));
            items.push(values::pairs(true, values::faults_at_lines(true)));
            items.push(values::pairs(false, values::close_objects()));
            items.push(values::pairs(true, values::close_materials()));
            items.push(values::pairs(false, o::all_statements(2)));
            items.push(values::pairs(false, o::grouping_state(3)));
            items.push(values::pairs(false, o::component_counts()));
            items.push(values::pairs(false, o::name_coincidences()));
            items.push(values::pairs(true, m::histories(2)));
            items.push(values::pairs(true, m::faults()));
            for file in o::base_files() {
                items.push(values::against(false, file, o::character_edits(vec![file])));
                items.push(values::against(false, file, o::word_edits(vec![file])));
            }
            for file in m::base_files() {
                items.push(values::against(true, file, o::character_edits(vec![file])));
                items.push(values::against(true, file, m::word_edits(vec![file])));
            }
            let file = "v 1 2 3\ng a\np 1\n";
            items.push(values::against(false, file, o::word_edit_pairs(file)));
            let file = "newmtl a\nKa 1 2 3\nd 1\n";
            items.push(values::against(true, file, m::word_edit_pairs(file)));
            items.push(values::copies(false, o::sizes(if deep { 140 } else { 20 }, if deep { 16 } else { 14 })));
            items.push(values::copies(true, m::sizes(if deep { 140 } else { 20 }, if deep { 16 } else { 14 })));
            items.push(values::copies(false, x::meshes(false)));
            items.push(values::copies(true, m::subsets()));
            items.push(values::copies(false, x::long_words(70, false)));
            items.push(values::copies(false, o::faults()));
            if deep {
                let file = "o a\nv 1 2 3\nf 1 1/ 1\n";
                items.push(values::against(false, file, o::character_edit_pairs(file)));
                items.push(values::pairs(false, o::all_statements(3)));
                items.push(values::pairs(true, m::histories(3)));
                items.push(values::pairs(false, o::word_edits(o::base_files())));
            }
        }
        // Run with an unoptimised build of the library: deep recursion that an
        // optimiser may turn into a loop overflows the stack here.
        "C01S" => {
            items.push(obj(o::sizes_at(&[1000, if deep { 1_000_000 } else { 150_000 }]), TOTAL));
            items.push(mtl(m::sizes_at(&[1000, if deep { 1_000_000 } else { 150_000 }]), TOTAL));
            items.push(obj(o::faults(), TOTAL));
            items.push(mtl(m::faults(), TOTAL));
            items.push(obj(o::all_statements(2 + d), TOTAL));
        }
        _ => panic!("unknown property {}", id),
    }
    // A space that is listed twice is explored once.
    let mut seen = std::collections::HashSet::new();
    items.retain(|item| seen.insert((item.name.clone(), item.bound.clone(), item.len)));
    // The spaces that take longest come last, so that most faults show early.
    let slow = ["sizes", "mtl/sizes", "meshes", "mtl/meshes", "raw-texts", "mtl/raw-texts", "decimals", "mtl/decimals", "far-indices", "histories/index-edges", "index-tuples"];
    items.sort_by_key(|item| slow.iter().any(|s| item.name.trim_start_matches("closed/").trim_start_matches("display/") == *s));
    // Names identify spaces in replay files, so they have to differ.
    let names: Vec<String> = items.iter().map(|i| i.name.clone()).collect();
    for (k, item) in items.iter_mut().enumerate() {
        let before = names[..k].iter().filter(|n| **n == item.name).count();
        if before > 0 {
            item.name = format!("{} ({})", item.name, before + 1);
        }
    }
    items
}

/// All short words as the value of a smoothing statement.
fn smoothing_words(max: u32) -> Space {
    let frames = ["v 1 2 3\ns @\np 1\n", "v 1 2 3\np 1\ns 3\ns @\np 1\n", "v 1 2 3\ns @ \\\r\nf 1 1 1\ns 4\np 1"];
    crate::space::framed("smoothing-words", &frames, crate::space::fragments("", &["o", "f", "1", "0", "-", "n", "+", "9", ".", "O", "F"], max))
}
