//! C14 and C19: generated GLSL and encoded bytes given to a GLSL compiler, and
//! to a shader on a Vulkan device.

use crate::batch::{self, Item, Src, Style};
use crate::build::{self, die, Env};
use crate::gen::{bare, CaseDef, Flavor, Names};
use crate::{make_cases, Ctx, Report};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn tool(env: &Env) -> PathBuf {
    let target = env.root.join("target/gpu");
    let mut cmd = Command::new("cargo");
    cmd.current_dir(env.root.join("gpu")).args(["build", "--offline", "--locked"]).env("CARGO_TARGET_DIR", &target).env_remove("RUSTFLAGS");
    let (code, _, err) = build::run_timeout(cmd, Duration::from_secs(800)).unwrap_or_else(|e| die(e));
    if code != Some(0) {
        die(format!("the GLSL tool does not build: {err}"));
    }
    target.join("debug/gpu")
}

fn style(values: u32) -> Style {
    Style { prop: "dump".into(), twins: false, huge: false, all_structs: true, values, known: vec![] }
}

/// Jobs for the tool from what the generated programs printed.
fn jobs(dumps: &[Value], cases: &BTreeMap<usize, CaseDef>) -> Vec<Value> {
    let mut by: BTreeMap<(usize, String, String), Vec<&Value>> = BTreeMap::new();
    let mut defs: BTreeMap<(usize, String), String> = BTreeMap::new();
    for d in dumps {
        let case = d["case"].as_u64().unwrap() as usize;
        let ty = d["type"].as_str().unwrap().rsplit("::").next().unwrap().to_string();
        defs.insert((case, bare(&ty).into()), d["definition"].as_str().unwrap_or("").into());
        by.entry((case, ty, d["std"].as_str().unwrap().into())).or_default().push(d);
    }
    let mut out = vec![];
    for ((case, ty, std), ds) in by {
        let c = &cases[&case];
        let at = c.structs.iter().position(|s| s.name == ty).unwrap();
        // A GLSL struct has at least one member.
        if c.structs[..=at].iter().any(|s| s.fields.is_empty()) {
            continue;
        }
        let definitions: Vec<&String> = c.structs[..=at].iter().filter_map(|s| defs.get(&(case, bare(&s.name).to_string()))).collect();
        let values: Vec<Value> = ds
            .iter()
            .map(|d| json!({"words": d["words"], "bytes": d["bytes"], "header": d["array"]["header"], "elems": d["array"]["elems"], "array": d["array"]["bytes"]}))
            .collect();
        out.push(json!({"id": out.len(), "case": case, "std": std, "schema": ds[0]["schema"], "definitions": definitions, "name": ds[0]["name"], "values": values}));
    }
    out
}

fn ask(tool: &Path, mode: &str, jobs: &[Value]) -> Vec<Value> {
    let n = jobs.len().div_ceil(8).max(1);
    let chunks: Vec<&[Value]> = jobs.chunks(n).collect();
    let res = batch::par(&chunks, |_, c| {
        let mut child = Command::new(tool)
            .arg(mode)
            .env("VK_DRIVER_FILES", "/usr/share/vulkan/icd.d/lvp_icd.json")
            .env("VK_ICD_FILENAMES", "/usr/share/vulkan/icd.d/lvp_icd.json")
            .env("MESA_SHADER_CACHE_DISABLE", "true")
            .env("LP_NUM_THREADS", "1")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| die(e));
        let mut si = child.stdin.take().unwrap();
        let text: String = c.iter().map(|j| j.to_string() + "\n").collect();
        let w = std::thread::spawn(move || {
            let _ = si.write_all(text.as_bytes());
        });
        let o = child.wait_with_output().unwrap_or_else(|e| die(e));
        let _ = w.join();
        if !o.status.success() {
            die(format!("the GLSL tool failed: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr)));
        }
        let v: Vec<Value> = String::from_utf8_lossy(&o.stdout)
            .lines()
            .filter_map(|l| l.strip_prefix("ANSWER "))
            .map(|l| serde_json::from_str(l).unwrap_or_else(|e| die(e)))
            .collect();
        if v.len() != c.len() {
            die("the GLSL tool did not answer every job");
        }
        v
    });
    res.into_iter().flatten().collect()
}

/// One definition alone.
fn still(ctx: &Env, tool: &Path, mode: &str, c: &CaseDef, seed: u64) -> Option<String> {
    let dir = batch::scratch_dir(ctx);
    batch::write_program(&dir, &[(0, Src::Case(c.clone()))], &style(16));
    let r = batch::run_program(ctx, &dir, &style(16), seed, &[]);
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        batch::Outcome::CompileError(e) => Some(format!("a supported definition does not compile: {}", e.text.chars().take(1500).collect::<String>())),
        batch::Outcome::Crash(m) => Some(m),
        batch::Outcome::Ran(v) => {
            let cases = BTreeMap::from([(0, c.clone())]);
            let j = jobs(v["dumps"].as_array().map_or(&[], |a| a), &cases);
            ask(tool, mode, &j).iter().filter_map(|a| a["fail"].as_str().map(|s| s.to_string())).next()
        }
    }
}

pub fn check(ctx: &Ctx) -> Report {
    let mode = if ctx.prop == "C14" { "layout" } else { "run" };
    let tool = tool(&ctx.env);
    let flavor = Flavor {
        glsl: true,
        names: Names::Glsl,
        dynamic: false,
        custom: false,
        big: false,
        huge: mode == "layout",
        max_fields: if mode == "run" { 14 } else { 24 },
        max_structs: 4,
        ..Flavor::default()
    };
    let n = match (mode, ctx.thorough) {
        ("layout", false) => 300,
        ("layout", true) => 3000,
        (_, false) => 96,
        _ => 1000,
    };
    let mut items = make_cases(ctx, &flavor, n, &ctx.prop);
    if mode == "layout" {
        let mut r = vs::run::rng(ctx.seed, crate::salt("pairs C14"));
        for def in crate::gen::all_pairs(&mut r, crate::gen::Mode::Both, true, 24, |p| p.glsl) {
            items.push(Item::Case(Box::new(crate::gen::Fixed { def, last: None, pos: 0 })));
        }
    }
    let mut r = vs::run::rng(ctx.seed, crate::salt(&format!("shapes {}", ctx.prop)));
    for def in crate::gen::shapes(&mut r, &flavor, n / 2) {
        items.push(Item::Case(Box::new(crate::gen::Fixed { def, last: None, pos: 0 })));
    }
    let cases: BTreeMap<usize, CaseDef> = items
        .iter()
        .enumerate()
        .filter_map(|(i, x)| match x {
            Item::Case(t) => Some((i, t.current())),
            _ => None,
        })
        .collect();
    let shards = if ctx.thorough { 48 } else { 8 };
    let st = style(if mode == "run" { 2 } else { 4 });
    let (totals, found) = batch::run(&ctx.env, &mut items, &|_| true, &st, ctx.seed, shards, Duration::from_secs(40));
    let jobs = jobs(&totals.dumps, &cases);
    let answers = ask(&tool, mode, &jobs);
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut discarded: BTreeMap<String, u64> = BTreeMap::new();
    let mut seen = HashSet::new();
    let mut samples = vec![];
    let (mut blocks, mut comps) = (0, 0);
    let mut bad: Vec<(String, usize)> = vec![];
    for (j, a) in jobs.iter().zip(&answers) {
        let b = a["blocks"].as_u64().unwrap_or(0);
        blocks += b;
        comps += a["components"].as_u64().unwrap_or(0);
        for d in a["discarded"].as_array().into_iter().flatten() {
            let d = d.as_str().unwrap_or("");
            let d: String = d.split(": ").take(3).collect::<Vec<_>>().join(": ");
            *discarded.entry(d).or_default() += 1;
        }
        let c = &cases[&(j["case"].as_u64().unwrap() as usize)];
        *classes.entry(format!("{} definitions", j["std"].as_str().unwrap())).or_default() += 1;
        if c.structs.len() > 1 {
            *classes.entry("with several structs".into()).or_default() += 1;
        }
        let members: usize = j["schema"]["Struct"]["fields"].as_array().map_or(0, |f| f.len());
        if b > 0 && members >= 2 && seen.insert((j["std"].to_string(), j["definitions"].to_string())) && samples.len() < 6 && seen.len() % 31 == 3 {
            samples.push(a["sample"].clone());
        }
        if let Some(m) = a["fail"].as_str() {
            bad.push((m.into(), j["case"].as_u64().unwrap() as usize));
        }
    }
    if jobs.is_empty() && found.is_empty() {
        die("no definitions to look at");
    }
    bad.sort_by_key(|b| cases[&b.1].structs.iter().map(|s| s.fields.len() + 1).sum::<usize>());
    let mut used = HashSet::new();
    bad.retain(|b| used.insert(b.1));
    let mut out = vec![];
    for (i, (m, id)) in bad.into_iter().take(3).enumerate() {
        let (mut m, mut c) = (m, cases[&id].clone());
        if i == 0 {
            let t0 = Instant::now();
            if let Item::Case(tree) = &mut items[id] {
                let mut go = tree.simplify();
                while go && t0.elapsed() < Duration::from_secs(60) {
                    let cur = tree.current();
                    match still(&ctx.env, &tool, mode, &cur, ctx.seed) {
                        Some(m2) => {
                            (m, c) = (m2, cur);
                            go = tree.simplify();
                        }
                        None => go = tree.complicate(),
                    }
                }
            }
        }
        let dir = ctx.root.join("replays").join(format!("{}-{}-{i}", ctx.prop, ctx.seed));
        let _ = std::fs::remove_dir_all(&dir);
        batch::write_program(&dir, &[(0, Src::Case(c.clone()))], &style(16));
        crate::save_json(&dir, &json!({"property": ctx.prop, "kind": "gpu", "mode": mode, "seed": ctx.seed, "message": m, "case": c}));
        out.push((m.chars().take(3000).collect(), dir));
    }
    for (i, v) in found.into_iter().take(3).enumerate() {
        let Some((_, Src::Case(c))) = v.items.first() else { continue };
        let dir = ctx.root.join("replays").join(format!("{}-{}-c{i}", ctx.prop, ctx.seed));
        let _ = std::fs::remove_dir_all(&dir);
        batch::write_program(&dir, &[(0, Src::Case(c.clone()))], &style(16));
        crate::save_json(&dir, &json!({"property": ctx.prop, "kind": "gpu", "mode": mode, "seed": ctx.seed, "message": v.message, "case": c}));
        out.push((v.message, dir));
    }
    Report {
        evaluations: jobs.iter().map(|j| j["values"].as_array().map_or(0, |v| v.len() as u64)).sum(),
        nontrivial: seen.len() as u64,
        rule: if mode == "layout" {
            "random nested struct definitions that derive GlslStruct and a layout, with random values; naga lays out the generated GLSL as members of a block, as one member, and as a runtime-sized array behind a header; non-trivial with two or more members and at least one block that naga handles, distinct by layout and text".into()
        } else {
            "random nested struct definitions with random values uploaded to a Vulkan device (lavapipe) as uniform and storage blocks; a compute shader built from the generated GLSL copies every component back; non-trivial with two or more members and at least one block that was run, distinct by layout and text".into()
        },
        samples,
        extra: json!({"classes": classes, "blocks": blocks, "components_compared": comps, "discarded": discarded, "definitions": jobs.len()}),
        violations: out,
        known: vec![],
        assumptions: vec![
            "naga's layout counts only where it gives the specification's layout for a correct definition of the same struct".into(),
            "bool members are declared as uint, two-row matrices as arrays of columns and nested structs as arrays of one, which GLSL lays out identically; naga handles only these".into(),
        ],
    }
}

pub fn replay(env: &Env, f: &Value) -> Option<String> {
    let c: CaseDef = serde_json::from_value(f["case"].clone()).unwrap_or_else(|e| die(e));
    let t = tool(env);
    still(env, &t, f["mode"].as_str().unwrap_or("layout"), &c, f["seed"].as_u64().unwrap_or(1))
}
