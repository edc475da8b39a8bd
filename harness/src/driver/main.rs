//! `driver check <property> <tier>` decides one property; `driver replay <dir>`
//! repeats a recorded violation.

mod batch;
mod build;
mod contexts;
mod gen;
mod gpu;
mod literal;
mod miri;
mod combos;
mod rejects;
mod simple;
mod targets;

use batch::{Item, Style, Totals, Violation};
use build::{die, Env};
use gen::{Flavor, Mode};
use proptest::prelude::Rng;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::TestRunner;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
use vs::run::{config, rng, Fnv};

pub struct Ctx {
    pub env: Env,
    pub root: PathBuf,
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub t0: Instant,
    pub known: Vec<String>,
}

pub struct Report {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub rule: String,
    pub samples: Vec<Value>,
    pub extra: Value,
    pub violations: Vec<(String, PathBuf)>,
    pub known: Vec<String>,
    pub assumptions: Vec<String>,
}

fn salt(s: &str) -> u64 {
    use std::hash::Hasher;
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    h.write(s.as_bytes());
    h.finish()
}

/// Known findings of a property: `known: property=<id> <signature> -- <what>`.
fn known_findings(root: &Path, prop: &str) -> Vec<String> {
    let Ok(t) = std::fs::read_to_string(root.join("known_findings.txt")) else { return vec![] };
    t.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| l.strip_prefix(&format!("property={prop} ")))
        .map(|l| l.split(" -- ").next().unwrap().trim().to_string())
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let build_json = PathBuf::from(std::env::var("VS_BUILD_JSON").unwrap_or_else(|_| die("VS_BUILD_JSON not set")));
    let scratch = PathBuf::from(std::env::var("VS_SCRATCH").unwrap_or_else(|_| die("VS_SCRATCH not set")));
    let env = Env::new(&root, &build_json, &scratch);
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = args[2].clone();
            let thorough = args.get(3).map_or(false, |t| t == "thorough");
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let known = known_findings(&root, &prop);
            let ctx = Ctx { env, root, prop, thorough, seed, t0: Instant::now(), known };
            let report = check(&ctx);
            finish(&ctx, report)
        }
        Some("replay") => replay(&env, Path::new(&args[2])),
        _ => die("usage: driver check <property> <quick|thorough> | driver replay <dir>"),
    }
}

fn check(ctx: &Ctx) -> Report {
    match &*ctx.prop {
        "C16" | "C23" => contexts::check(ctx),
        "C17" => rejects::check(ctx),
        "C14" | "C19" => gpu::check(ctx),
        "C18" => combos::check(ctx),
        "C22" => targets::check(ctx),
        _ => runtime(ctx),
    }
}

pub fn save_json(dir: &Path, v: &Value) {
    let mut v = v.clone();
    v["replay"] = json!(format!("/verif/check.sh replay {}", dir.display()));
    std::fs::write(dir.join("failure.json"), serde_json::to_string_pretty(&v).unwrap()).unwrap_or_else(|e| die(e));
}

fn finish(ctx: &Ctx, r: Report) -> ! {
    let ev = json!({
        "property": ctx.prop,
        "tier": if ctx.thorough { "thorough" } else { "quick" },
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": merge(json!({
            "evaluations": r.evaluations,
            "distinct_nontrivial": r.nontrivial,
            "rule": r.rule,
            "samples": r.samples,
        }), r.extra),
        "assumptions": r.assumptions,
        "wall_s": (ctx.t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": r.violations.len(),
    });
    let dir = ctx.root.join("evidence");
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(e));
    std::fs::write(dir.join(format!("{}.json", ctx.prop)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap_or_else(|e| die(e));
    for k in &r.known {
        println!("KNOWN-FINDING: property={} {k}", ctx.prop);
    }
    for (m, p) in &r.violations {
        println!("{m}");
        println!("VIOLATION property={} replay={}", ctx.prop, p.display());
    }
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1} s",
        ctx.prop,
        r.evaluations,
        r.nontrivial,
        r.violations.len(),
        ctx.t0.elapsed().as_secs_f64()
    );
    let _ = std::fs::remove_dir_all(&ctx.env.scratch);
    std::process::exit(if r.violations.is_empty() { 0 } else { 1 })
}

fn merge(mut a: Value, b: Value) -> Value {
    for (k, v) in b.as_object().into_iter().flatten() {
        a[k] = v.clone();
    }
    a
}

/// What a runtime property generates.
struct Plan {
    flavor: Flavor,
    cases: usize,
    pairs: Vec<Mode>,
    prims: bool,
    customs: bool,
    style: Style,
    rule: &'static str,
}

fn plan(ctx: &Ctx) -> Plan {
    let t = ctx.thorough;
    let style = Style { prop: ctx.prop.clone(), twins: false, huge: false, all_structs: false, values: 24, known: ctx.known.clone() };
    let mut p = Plan {
        flavor: Flavor::default(),
        cases: 160,
        pairs: vec![],
        prims: true,
        customs: true,
        style,
        rule: "",
    };
    match &*ctx.prop {
        "C01" | "C02" => {
            let only = if ctx.prop == "C01" { Mode::Only140 } else { Mode::Only430 };
            p.flavor.modes = vec![only, only, only, Mode::Both];
            p.prims = false;
            p.cases = 220;
            p.pairs = vec![only];
            p.style.values = 8;
            p.rule = "random DAGs of struct definitions (all supported field types of all math libraries, user types, DynamicUniform in std140, depth up to 4, 0-32 fields) plus structs that walk over all ordered pairs of field types and over all runs of 3 (thorough: 4) adjacent fields of different layouts; random component bits; a case is non-trivial if it has two different non-zero components (or one, if at most four components)";
        }
        "C03" => {
            p.style.values = 12;
            p.rule = "random struct definitions and all built-in types; random components encoded into memory filled with 0xa5, 0xff and 0 and through a Writer; non-trivial as two different non-zero components";
        }
        "C04" => {
            p.style.values = 32;
            p.rule = "random struct definitions and all built-in types; component bits random or special (NaN payloads, infinities, subnormals, signed zeros, extreme integers); non-trivial as two different non-zero components";
        }
        "C05" => {
            p.cases = 0;
            p.style.values = 96;
            p.rule = "every built-in type under each of its Rust names in both layouts; random and special component bits; non-trivial as two different non-zero components";
        }
        "C06" => {
            p.style.twins = true;
            p.cases = 80;
            p.flavor.custom = false;
            p.style.values = 24;
            p.rule = "every type of every math library, and random structs of them, against the same definition spelled with mint; random components; non-trivial as two different non-zero components";
        }
        "C07" => {
            p.flavor.allow = |p| matches!(p.prim, vs::model::Prim::Scalar(vs::model::Kind::Bool) | vs::model::Prim::Vec(vs::model::Kind::Bool, _)) || p.sp.len() == 3 || p.lib() == "glam";
            p.flavor.custom = false;
            p.cases = 80;
            p.style.values = 64;
            p.rule = "raw 32-bit words as Bool, and boolean types and structs with booleans with arbitrary stored words; non-trivial if a stored word is neither 0 nor 1";
        }
        "C08" | "C09" | "C12" => {
            p.cases = 72;
            p.style.values = 500;
            p.style.huge = ctx.prop == "C08";
            p.rule = match &*ctx.prop {
                "C08" => "random sequences of all Writer calls over built-in types and random structs; non-trivial with two or more calls and an alignment gap",
                "C09" => "random value lists after random prefixes, written in all ways; non-trivial with two or more values, or none at an unaligned position",
                _ => "random write histories with random faults of the sink by byte position (short writes, interruptions, errors, full); non-trivial if a fault took effect",
            };
        }
        "C10" => {
            p.cases = 72;
            p.style.values = 1500;
            p.style.huge = true;
            p.rule = "random sequences of types added to a Sizer and written to a Writer, and sequences of huge types beyond 4 GiB; non-trivial with two or more types and an alignment gap";
        }
        "C11" => {
            p.style.values = 16;
            p.rule = "every type and random structs, with slices of 0-69 values and hand-written Write types; non-trivial if the slice does not have exactly one element (distinct by type and length)";
        }
        "C13" => {
            p.flavor.modes = vec![Mode::Only140];
            p.style.values = 16;
            p.rule = "every type and random structs (also with DynamicUniform fields) wrapped in DynamicUniform, and Writer/Sizer histories mixing wrapped and bare values; non-trivial as two different non-zero components, or two or more wrapped values in a history";
        }
        "C15" => {
            p.flavor.glsl = true;
            p.flavor.dynamic = false;
            p.flavor.custom = false;
            p.style.all_structs = true;
            p.style.values = 1;
            p.cases = 240;
            p.rule = "random struct definitions with arbitrary identifiers (raw ones included) deriving GlslStruct; non-trivial with two or more fields (structs) or any built-in type, distinct by definition";
        }
        "C20" => {
            p.flavor.dynamic = false;
            p.flavor.custom = false;
            p.customs = false;
            p.cases = 120;
            p.style.values = 12;
            p.rule = "slices of every built-in type and of random structs after random headers; non-trivial with two or more elements";
        }
        "C21" => {
            p.style.values = 32;
            p.rule = "arbitrary byte buffers (random, sparse, constant) read back as every built-in type and random structs; non-trivial if not all zero";
        }
        x => die(format!("no plan for {x}")),
    }
    let (cases, values) = if t { (12, 4) } else { (2, 1) };
    p.cases *= cases;
    p.style.values *= values;
    p
}

pub fn make_cases(ctx: &Ctx, flavor: &Flavor, n: usize, tag: &str) -> Vec<Item> {
    let mut runner = TestRunner::new_with_rng(config(1), rng(ctx.seed, salt(tag)));
    let s = gen::case(flavor);
    (0..n).map(|_| Item::Case(Box::new(s.new_tree(&mut runner).unwrap_or_else(|e| die(e))) as Box<dyn ValueTree<Value = _>>)).collect()
}

fn runtime(ctx: &Ctx) -> Report {
    let p = plan(ctx);
    let mut items = vec![];
    if p.prims {
        items.extend(gen::prims().into_iter().map(Item::Prim));
        if p.customs && p.flavor.custom {
            items.extend(gen::customs().into_iter().map(Item::Prim));
            items.extend(gen::hand().into_iter().map(Item::Prim));
        }
    }
    items.extend(make_cases(ctx, &p.flavor, p.cases, &ctx.prop));
    let mut r = rng(ctx.seed, salt(&format!("pairs {}", ctx.prop)));
    for m in &p.pairs {
        let chunk = 14 + (r.next_u64() % 14) as usize;
        for def in gen::all_pairs(&mut r, *m, false, chunk, |_| true) {
            items.push(Item::Case(Box::new(gen::Fixed { def, last: None, pos: 0 })));
        }
    }
    if matches!(&*ctx.prop, "C01" | "C02") {
        let mut r = rng(ctx.seed, salt(&format!("runs {}", ctx.prop)));
        for def in gen::all_runs(&mut r, p.pairs[0], if ctx.thorough { 4 } else { 3 }, 24) {
            items.push(Item::Case(Box::new(gen::Fixed { def, last: None, pos: 0 })));
        }
    }
    let mut r = rng(ctx.seed, salt(&format!("shapes {}", ctx.prop)));
    for def in gen::shapes(&mut r, &p.flavor, p.cases / 2) {
        items.push(Item::Case(Box::new(gen::Fixed { def, last: None, pos: 0 })));
    }
    if matches!(&*ctx.prop, "C01" | "C02" | "C04" | "C15") {
        let mut r = rng(ctx.seed, salt(&format!("wide {}", ctx.prop)));
        for n in if ctx.thorough { vec![130, 257, 300, 520, 700] } else { vec![257 + (r.next_u64() % 40) as usize] } {
            let def = gen::wide(&mut r, &p.flavor, n);
            items.push(Item::Case(Box::new(gen::Fixed { def, last: None, pos: 0 })));
        }
    }
    let generated = items.iter().filter(|i| matches!(i, Item::Case(_))).count();
    let shards = if ctx.thorough { 32 } else { 8 };
    let budget = Duration::from_secs(if ctx.thorough { 240 } else { 60 });
    // The optimised crates are built while the first programs run.
    let (opt, (mut totals, mut violations)) = std::thread::scope(|s| {
        let opt = s.spawn(|| ctx.env.optimised());
        let r = batch::run(&ctx.env, &mut items, &|_| true, &p.style, ctx.seed, shards, budget);
        (opt.join().unwrap_or_else(|_| die("the optimised build failed")), r)
    });
    let mut optimised = 0;
    if violations.is_empty() {
        // All built-in types again, and a part of the definitions. Optimising all the
        // ways to write takes the compiler long.
        let prims: Vec<bool> = items.iter().map(|i| matches!(i, Item::Prim(_))).collect();
        let slow = matches!(&*ctx.prop, "C09" | "C15") && !ctx.thorough;
        let share = if ctx.thorough { 2 } else if slow { 16 } else { 4 };
        let part = |i: usize| (prims[i] && (!slow || i % 3 == ctx.seed as usize % 3)) || i % share == ctx.seed as usize % 2;
        let (t, v) = batch::run(&opt, &mut items, &part, &p.style, ctx.seed ^ 0x0970, shards, budget);
        optimised = t.evaluations;
        totals.merge(t);
        violations = v;
    }
    let mut r = report(ctx, totals, violations, p.rule, generated);
    r.extra["evaluations_in_optimised_programs"] = json!(optimised);
    if ctx.prop == "C03" {
        let m = miri::check(ctx);
        r.evaluations += m.evaluations;
        r.extra["types_and_structs_run_under_miri"] = json!(m.evaluations);
        r.extra["miri"] = json!(m.note);
        r.violations.extend(m.violations);
    }
    r
}

fn report(ctx: &Ctx, t: Totals, violations: Vec<Violation>, rule: &str, generated: usize) -> Report {
    let mut classes = BTreeMap::new();
    let mut pairs = 0;
    for (k, v) in &t.classes {
        if k.starts_with("pair ") {
            pairs += 1;
        } else {
            classes.insert(k.clone(), *v);
        }
    }
    let mut samples = t.samples.clone();
    samples.truncate(12);
    let out = violations.into_iter().take(3).enumerate().map(|(i, v)| save(ctx, i, v)).collect();
    Report {
        evaluations: t.evaluations,
        nontrivial: t.nontrivial.len() as u64,
        rule: rule.into(),
        samples,
        extra: json!({
            "generated_struct_definitions": generated,
            "programs": t.programs,
            "types_registered": t.types,
            "classes": classes,
            "distinct_adjacent_field_type_pairs": pairs,
        }),
        violations: out,
        known: t.known.iter().map(|(k, n)| format!("{k} (seen in {n} generated cases)")).collect(),
        assumptions: vec![],
    }
}

fn save(ctx: &Ctx, i: usize, v: Violation) -> (String, PathBuf) {
    let dir = ctx.root.join("replays").join(format!("{}-{}-{}", ctx.prop, ctx.seed, i));
    let _ = std::fs::remove_dir_all(&dir);
    batch::write_program(&dir, &v.items, &v.style);
    if let Some(input) = &v.input {
        std::fs::write(dir.join("input.json"), serde_json::to_string_pretty(input).unwrap()).unwrap_or_else(|e| die(e));
    }
    let f = json!({
        "property": ctx.prop, "seed": ctx.seed, "message": v.message, "input": v.input,
        "known": v.style.known, "values": v.style.values, "optimised": v.opt,
        "definitions": v.items.iter().map(|x| x.1.show()).collect::<Vec<_>>(),
        "replay": format!("/verif/check.sh replay {}", dir.display()),
    });
    std::fs::write(dir.join("failure.json"), serde_json::to_string_pretty(&f).unwrap()).unwrap_or_else(|e| die(e));
    let m: String = v.message.chars().take(2500).collect();
    (if v.opt { format!("in an optimised program: {m}") } else { m }, dir)
}

fn replay(env: &Env, dir: &Path) -> ! {
    let f: Value = serde_json::from_str(&std::fs::read_to_string(dir.join("failure.json")).unwrap_or_else(|e| die(e))).unwrap_or_else(|e| die(e));
    let style = Style {
        prop: f["property"].as_str().unwrap().into(),
        twins: false,
        huge: false,
        all_structs: false,
        values: f["values"].as_u64().unwrap_or(64) as u32,
        known: serde_json::from_value(f["known"].clone()).unwrap_or_default(),
    };
    if f["kind"] == "contexts" {
        verdict(&style.prop, dir, contexts::replay(env, dir, &f));
    }
    if f["kind"] == "rejects" {
        verdict(&style.prop, dir, rejects::replay(env, dir, &f));
    }
    if f["kind"] == "combos" {
        verdict(&style.prop, dir, combos::replay(env, dir, &f));
    }
    if f["kind"] == "targets" {
        verdict(&style.prop, dir, targets::replay(env, dir, &f));
    }
    if f["kind"] == "gpu" {
        verdict(&style.prop, dir, gpu::replay(env, &f));
    }
    if f["kind"] == "miri" {
        verdict(&style.prop, dir, miri::replay(env, dir));
    }
    let mut extra = vec![];
    if dir.join("input.json").exists() {
        extra = vec!["--input".to_string(), dir.join("input.json").display().to_string()];
    }
    let opt;
    let env = if f["optimised"] == true {
        opt = env.optimised();
        &opt
    } else {
        env
    };
    let failed = match batch::run_program(env, dir, &style, f["seed"].as_u64().unwrap_or(1), &extra) {
        batch::Outcome::CompileError(e) => Some(e.text),
        batch::Outcome::Crash(m) => Some(m),
        batch::Outcome::Ran(v) => v["failures"].as_array().and_then(|a| a.first()).map(|f| f["message"].as_str().unwrap_or("").to_string()),
    };
    verdict(&style.prop, dir, failed)
}

fn verdict(prop: &str, dir: &Path, failed: Option<String>) -> ! {
    match failed {
        Some(m) => {
            println!("{m}");
            println!("VIOLATION property={} replay={}", prop, dir.display());
            std::process::exit(1)
        }
        None => {
            println!("{} holds on this input", prop);
            std::process::exit(0)
        }
    }
}
