//! Bounded exhaustive exploration of the parsers of cgwavefront_obj.
//!
//!   mc check ID TIER       explore, write the evidence, report violations
//!   mc replay FILE         run the case of a replay file again
//!
//! The exploration runs in a worker process, so that crashes, hangs and
//! runaway memory of the code under test are observed by the supervisor.

mod checks;
mod cost;
mod engine;
mod extra;
mod judge;
mod model;
mod mtlspace;
mod objspace;
mod sched;
mod space;
mod special;
mod values;

use engine::{Ctx, Fail, Item, Outcome};
use std::fmt::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

#[global_allocator]
static GUARD: engine::Guard = engine::Guard;

fn home() -> PathBuf {
    PathBuf::from(std::env::var("MC_HOME").unwrap_or_else(|_| "/verif".into()))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match args[1..] {
        ["check", id, tier] => supervise(id, tier),
        ["worker", id, tier, slots, result] => work(id, tier, slots, result),
        ["one", id, tier, item, index] => one(id, tier, item, index.parse().expect("index")),
        ["replay", file] => replay(file),
        ["list", id, tier] => {
            for item in checks::items(id, tier == "thorough") {
                println!("{:>12}  {}: {}", item.len, item.name, item.bound);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID quick|thorough | mc replay FILE");
            2
        }
    };
    std::process::exit(code);
}

/// Findings listed for a property: (identifier, text).
fn findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(home().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("known: ")?.strip_prefix(&format!("property={} ", id))?;
            let rest = rest.strip_prefix("id=")?;
            let (name, what) = rest.split_once(' ')?;
            Some((name.to_string(), what.to_string()))
        })
        .collect()
}

fn prepare(id: &str) {
    let _ = engine::LISTED.set(findings(id).into_iter().map(|f| f.0).collect());
    // Panics of the code under test are reported by the checks themselves.
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !engine::in_code_under_test() {
            default(info);
        }
    }));
    engine::die_with_parent();
    engine::limit_memory(28 << 30);
    engine::keep_memory();
}

fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).min(16)
}

// ---------------------------------------------------------------- worker

fn work(id: &str, tier: &str, slots: &str, result: &str) -> i32 {
    prepare(id);
    let file = std::fs::OpenOptions::new().read(true).write(true).open(slots).expect("slot file");
    let slots = engine::map_slots(&file);
    let items = checks::items(id, tier == "thorough");
    let outcome = engine::explore(&items, threads(), slots);
    std::fs::write(result, encode(&items, &outcome)).expect("result file");
    if outcome.fail.is_some() {
        1
    } else {
        0
    }
}

/// One record per line: key, tab, value (escaped).
fn encode(items: &[Item], outcome: &Outcome) -> String {
    let mut s = String::new();
    let t = &outcome.total;
    let mut put = |k: &str, v: String| {
        let _ = writeln!(s, "{}\t{}", k, v.escape_default());
    };
    put("states", t.states.len().to_string());
    put("transitions", t.transitions.len().to_string());
    put("outcomes", t.outcomes.len().to_string());
    put("saturated", t.saturated.to_string());
    put("traces", t.traces.to_string());
    put("schedules", t.schedules.to_string());
    put("released", sched::released().to_string());
    put("accepted", t.accepted.to_string());
    put("rejected", t.rejected.to_string());
    for x in &t.samples {
        put("sample", x.clone());
    }
    for (what, value) in &t.measures {
        put("measure", format!("{}\u{1}{}", what, value));
    }
    for (name, n) in &t.known {
        put("known", format!("{} {}", name, n));
    }
    for (item, (len, secs, accepted)) in items.iter().zip(&outcome.items) {
        put("item", format!("{}\u{1}{}\u{1}{}\u{1}{:.2}\u{1}{}", item.name, item.bound, len, secs, accepted));
    }
    if let Some((item, index, fail)) = &outcome.fail {
        put("fail", format!("{}\u{1}{}\u{1}{}\u{1}{}", items[*item].name, index, fail.detail, fail.input));
    }
    s
}

fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut chars = s.chars();
    while let Some(c) = chars.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match chars.next() {
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('t') => out.push('\t'),
            Some('u') => {
                let hex: String = chars.by_ref().skip(1).take_while(|c| *c != '}').collect();
                out.push(u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32).unwrap_or('?'));
            }
            Some(c) => out.push(c),
            None => {}
        }
    }
    out
}

// ---------------------------------------------------------------- supervisor

#[derive(Default)]
struct Report {
    records: Vec<(String, String)>,
}

impl Report {
    fn get(&self, key: &str) -> &str {
        self.records.iter().find(|r| r.0 == key).map_or("0", |r| r.1.as_str())
    }
    fn all<'a>(&'a self, key: &'a str) -> impl Iterator<Item = &'a str> + 'a {
        self.records.iter().filter(move |r| r.0 == key).map(|r| r.1.as_str())
    }
}

enum Ended {
    /// The exploration ended; there may be a violation in the report.
    Done(Report),
    /// The worker was ended by the code under test in this case.
    Crashed { item: String, index: u64, how: String },
    /// Something else went wrong.
    Broken(String),
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn explore_in_worker(exe: &Path, id: &str, tier: &str) -> Ended {
    let scratch = Scratch(home().join("run").join(format!("{}-{}", id, std::process::id())));
    if std::fs::create_dir_all(&scratch.0).is_err() {
        return Ended::Broken("cannot create a scratch directory".into());
    }
    let (slot_path, result_path) = (scratch.0.join("slots"), scratch.0.join("result"));
    let file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&slot_path).expect("slot file");
    let slots = engine::map_slots(&file);
    let status = Command::new(exe)
        .args(["worker", id, tier])
        .args([&slot_path, &result_path])
        .stdin(Stdio::null())
        .status();
    let status = match status {
        Ok(s) => s,
        Err(e) => return Ended::Broken(format!("cannot run the worker: {}", e)),
    };
    if let Some(0 | 1) = status.code() {
        return match std::fs::read_to_string(&result_path) {
            Ok(text) => Ended::Done(Report {
                records: text
                    .lines()
                    .filter_map(|l| l.split_once('\t'))
                    .map(|(k, v)| (k.to_string(), unescape(v)))
                    .collect(),
            }),
            Err(e) => Ended::Broken(format!("no result: {}", e)),
        };
    }
    // The worker did not end by itself. Which case was it?
    let names: Vec<String> = checks::items(id, tier == "thorough").into_iter().map(|i| i.name).collect();
    let mut suspects: Vec<(u64, u64)> = slots
        .iter()
        .filter(|s| s.busy.load(Ordering::Relaxed) != 0)
        .map(|s| (s.item.load(Ordering::Relaxed), s.index.load(Ordering::Relaxed)))
        .collect();
    suspects.sort();
    for (item, index) in suspects {
        let Some(name) = names.get(item as usize) else { continue };
        if let Some(how) = run_alone(exe, id, tier, name, index) {
            return Ended::Crashed { item: name.clone(), index, how };
        }
    }
    Ended::Broken(format!("the worker ended with {:?} and no single case reproduces it", status))
}

/// Run one case in a process of its own; how it failed, if it did.
fn run_alone(exe: &Path, id: &str, tier: &str, item: &str, index: u64) -> Option<String> {
    let mut child = Command::new(exe)
        .args(["one", id, tier, item, &index.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let start = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(status)) => {
                return match status.code() {
                    Some(0) | Some(2) => None,
                    Some(1) => Some("violates the property".into()),
                    Some(engine::EXIT_MEMORY) => Some("asks for more memory than any result can need".into()),
                    None if matches!(status.signal(), Some(9 | 24)) => Some("does not end within 40 s".into()),
                    _ => Some(format!("ends the process ({})", status)),
                }
            }
            Ok(None) if start.elapsed() > Duration::from_secs(200) => {
                let _ = child.kill();
                let _ = child.wait();
                return Some("does not end within 200 s".into());
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(20)),
            Err(_) => return None,
        }
    }
}

fn one(id: &str, tier: &str, item: &str, index: u64) -> i32 {
    prepare(id);
    engine::limit_processor(40);
    let items = checks::items(id, tier == "thorough");
    let Some(found) = items.iter().find(|i| i.name == item) else {
        eprintln!("no such item: {}", item);
        return 2;
    };
    // On a thread with the stack size of the exploration.
    let result = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, || (found.run)(index, &mut Ctx::default()))
            .expect("thread")
            .join()
    });
    match result {
        Ok(Ok(())) => {
            println!("the property holds in this case");
            0
        }
        Ok(Err(Fail { input, detail })) => {
            println!("input:\n{}\nwhat is wrong: {}", shorten(&input), detail);
            1
        }
        Err(_) => {
            println!("the check itself panicked");
            2
        }
    }
}

fn shorten(s: &str) -> String {
    if s.len() <= 4000 {
        return format!("{:?}", s);
    }
    let head: String = s.chars().take(1500).collect();
    let mut tail: Vec<char> = s.chars().rev().take(1500).collect();
    tail.reverse();
    format!("{:?} ... {:?} ({} bytes)", head, tail.into_iter().collect::<String>(), s.len())
}

fn write_replay(id: &str, run: &str, tier: &str, item: &str, index: u64, input: &str, detail: &str) -> PathBuf {
    let dir = home().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.txt", id, item.replace('/', "_"), index));
    let text = format!(
        "property: {}\nrun: {}\ntier: {}\nitem: {}\nindex: {}\nwhat is wrong: {}\ninput: {}\n\nReplay with: bash /verif/check.sh replay {}\n",
        id,
        run,
        tier,
        item,
        index,
        detail,
        shorten(input),
        path.display()
    );
    let _ = std::fs::write(&path, text);
    path
}

fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let get = |key: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{}: ", key))).unwrap_or("").to_string();
    let exe = executable(&get("run"));
    let status = Command::new(exe).args(["one", &get("run"), &get("tier"), &get("item"), &get("index")]).status();
    match status.map(|s| s.code()) {
        Ok(Some(c)) => c,
        other => {
            println!("the case ends the process: {:?}", other);
            1
        }
    }
}

/// The build of the library that a run uses.
fn executable(run: &str) -> PathBuf {
    if run == "C01S" {
        if let Ok(path) = std::env::var("MC_UNOPTIMISED") {
            return PathBuf::from(path);
        }
    }
    if run == "C21" || run == "C20E" {
        if let Ok(path) = std::env::var("MC_METERED") {
            return PathBuf::from(path);
        }
    }
    std::env::current_exe().expect("path of this program")
}

fn json(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn evidence(id: &str, tier: &str, report: &Report, extra: Option<&Report>, wall: f64, violations: u32, found: &[String]) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut s = String::new();
    let _ = write!(s, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n", json(id), json(tier), seed);
    let _ = write!(s, "  \"states\": {},\n  \"transitions\": {},\n", report.get("states"), report.get("transitions"));
    let _ = write!(s, "  \"traces_validated_against_impl\": {},\n", report.get("traces"));
    if report.get("schedules") != "0" {
        let _ = write!(s, "  \"schedules\": {},\n  \"schedules_not_followed_to_the_end\": {},\n", report.get("schedules"), report.get("released"));
    }
    let measures: Vec<String> = report.all("measure").filter_map(|m| m.split_once('\u{1}')).map(|(what, value)| format!("{}: {}", json(what), value)).collect();
    if !measures.is_empty() {
        let _ = write!(s, "  \"measures\": {{{}}},\n", measures.join(", "));
    }
    let _ = write!(s, "  \"exhaustive\": {},\n", violations == 0);
    let _ = write!(s, "  \"state_counts_are_lower_bounds\": {},\n", report.get("saturated") == "true");
    let _ = write!(s, "  \"distinct_outcomes\": {},\n  \"accepted\": {},\n  \"rejected\": {},\n", report.get("outcomes"), report.get("accepted"), report.get("rejected"));
    let samples: Vec<&str> = {
        let mut all: Vec<&str> = report.all("sample").filter(|x| !x.is_empty()).collect();
        all.sort();
        all.dedup();
        let step = (all.len() / 8).max(1);
        all.into_iter().step_by(step).take(8).collect()
    };
    let _ = write!(s, "  \"samples\": [{}],\n", samples.iter().map(|x| json(x)).collect::<Vec<_>>().join(", "));
    let spaces: Vec<String> = report
        .all("item")
        .chain(extra.into_iter().flat_map(|e| e.all("item")))
        .map(|item| {
            let parts: Vec<&str> = item.split('\u{1}').collect();
            format!("   {{\"space\": {}, \"bound\": {}, \"cases\": {}, \"accepted\": {}, \"seconds\": {}}}", json(parts[0]), json(parts[1]), parts[2], parts[4], parts[3])
        })
        .collect();
    let _ = write!(s, "  \"spaces\": [\n{}\n  ],\n", spaces.join(",\n"));
    if let Some(e) = extra {
        let _ = write!(s, "  \"{}\": {},\n", if id == "C20" { "metered_build_traces" } else { "unoptimised_build_traces" }, e.get("traces"));
        if e.get("schedules") != "0" {
            let _ = write!(s, "  \"schedules_at_edges\": {},\n  \"schedules_at_edges_not_followed_to_the_end\": {},\n", e.get("schedules"), e.get("released"));
        }
    }
    let _ = write!(s, "  \"known_findings_met\": [{}]\n }},\n", found.iter().map(|f| json(f)).collect::<Vec<_>>().join(", "));
    let _ = write!(
        s,
        " \"assumptions\": [\"the reference model in mc/src/model.rs states the format this library defines\", \"states are abstract states of the model (counts, active groups, smoothing group, material, freshness), identified by 64-bit hashes\", \"every listed space was enumerated completely and every text in it was run through the library built from /repo\"],\n"
    );
    let _ = write!(s, " \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, violations);
    let dir = home().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", id)), s) {
        eprintln!("cannot write the evidence: {}", e);
    }
}

fn supervise(id: &str, tier: &str) -> i32 {
    if !checks::IDS.contains(&id) || !["quick", "thorough"].contains(&tier) {
        eprintln!("unknown property or tier: {} {}", id, tier);
        return 2;
    }
    let start = Instant::now();
    let mut runs = vec![id.to_string()];
    if id == "C01" && std::env::var("MC_UNOPTIMISED").is_ok() {
        runs.push("C01S".into());
    }
    if id == "C20" && std::env::var("MC_METERED").is_ok() {
        runs.push("C20E".into());
    }
    let mut reports: Vec<Report> = Vec::new();
    let mut violation: Option<PathBuf> = None;
    for run in &runs {
        let mut ended = explore_in_worker(&executable(run), run, tier);
        if let Ended::Broken(why) = &ended {
            eprintln!("the worker of {} failed ({}), running it again", id, why);
            ended = explore_in_worker(&executable(run), run, tier);
        }
        match ended {
            Ended::Broken(why) => {
                eprintln!("ERROR: the check of {} could not be completed: {}", id, why);
                return 2;
            }
            Ended::Crashed { item, index, how } => {
                let detail = format!("this case {}", how);
                let input = checks::items(run, tier == "thorough").into_iter().find(|i| i.name == item).map_or(String::new(), |i| i.bound);
                println!("{}: case {} of {}: {}", id, index, item, detail);
                violation = Some(write_replay(id, run, tier, &item, index, &input, &detail));
                reports.push(Report::default());
            }
            Ended::Done(report) => {
                if let Some(fail) = report.all("fail").next() {
                    let parts: Vec<&str> = fail.splitn(4, '\u{1}').collect();
                    println!("{}: case {} of {}: {}\ninput: {}", id, parts[1], parts[0], parts[2], shorten(parts[3]));
                    violation = Some(write_replay(id, run, tier, parts[0], parts[1].parse().unwrap_or(0), parts[3], parts[2]));
                }
                reports.push(report);
            }
        }
        if violation.is_some() {
            break;
        }
    }
    let met: Vec<String> = reports.iter().flat_map(|r| r.all("known").map(|k| k.split(' ').next().unwrap_or("").to_string()).collect::<Vec<_>>()).collect();
    let known: Vec<String> = findings(id).into_iter().filter(|f| met.contains(&f.0)).map(|f| f.1).collect();
    for what in &known {
        println!("KNOWN-FINDING: property={} {}", id, what);
    }
    evidence(id, tier, &reports[0], reports.get(1), start.elapsed().as_secs_f64(), violation.is_some() as u32, &known);
    let r = &reports[0];
    println!(
        "{} {}: {} cases executed, {} accepted, {} rejected, {} model states, {} transitions, {:.1} s",
        id,
        tier,
        r.get("traces"),
        r.get("accepted"),
        r.get("rejected"),
        r.get("states"),
        r.get("transitions"),
        start.elapsed().as_secs_f64()
    );
    match violation {
        Some(path) => {
            println!("VIOLATION property={} replay={}", id, path.display());
            1
        }
        None => 0,
    }
}
