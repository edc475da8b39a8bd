//! C18: every combination of crate features gives the same results.

use crate::batch::{self, Src};
use crate::build::{self, die, Env};
use crate::gen::{self, bare, CaseDef, FTy, Flavor, Mode};
use crate::literal::{self, More};
use crate::{Ctx, Report};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::TestRunner;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::path::Path;
use std::process::Command;
use std::time::{Duration, Instant};
use vs::model::{self, Std};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Combo {
    pub std: bool,
    pub libs: Vec<String>,
}
impl Combo {
    fn all() -> Vec<Combo> {
        let mut v = vec![];
        for m in 0..8 {
            for std in [true, false] {
                let libs = ["cgmath", "glam", "nalgebra"].iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| x.1.to_string()).collect();
                v.push(Combo { std, libs });
            }
        }
        v
    }
    fn name(&self) -> String {
        let mut v = vec![if self.std { "std" } else { "no_std" }.to_string()];
        v.extend(self.libs.clone());
        v.join("+")
    }
    /// Libraries a field's type may come from.
    fn types(&self) -> Vec<String> {
        let mut v = vec!["mint".to_string(), "crevice".to_string()];
        v.extend(self.libs.clone());
        v
    }
    /// cgmath itself needs std; without it the program has none at all.
    fn freestanding(&self) -> bool {
        !self.std && !self.libs.iter().any(|l| l == "cgmath")
    }
}

/// Builds crevice with these features. The error is cargo's output.
fn build(env: &Env, c: &Combo) -> Result<Env, String> {
    let mut f = vec![if c.std { "std".to_string() } else { "no-std".to_string() }];
    f.extend(c.libs.clone());
    let mut cmd = Command::new("cargo");
    cmd.current_dir(env.root.join("combos"))
        .args(["build", "--offline", "--locked", "--message-format=json", "--features", &f.join(",")])
        .env("CARGO_TARGET_DIR", env.root.join("target/combos"))
        .env_remove("RUSTFLAGS");
    let (code, out, err) = build::run_timeout(cmd, Duration::from_secs(600)).unwrap_or_else(|e| die(e));
    match code {
        Some(0) => {
            let mut n: Vec<&str> = vec!["crevice", "mint", "bytemuck"];
            n.extend(c.libs.iter().map(|s| s.as_str()));
            Ok(Env::from_json(&env.root, &out, &env.scratch, &n))
        }
        Some(101) => {
            let e = build::parse_errors(
                &out.lines()
                    .filter_map(|l| serde_json::from_str::<serde_json::Value>(l).ok())
                    .filter(|v| v["reason"] == "compiler-message")
                    .map(|v| v["message"].to_string() + "\n")
                    .collect::<String>(),
            );
            let t = if e.text.is_empty() { err } else { e.text };
            Err(format!("crevice does not build with features {}: {}", c.name(), t.chars().take(2500).collect::<String>()))
        }
        _ => die(format!("cargo did not finish: {err}")),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Item {
    Prim { sp: String, prim: model::Prim, std140: bool, std430: bool },
    Case(CaseDef),
}

fn render(c: &Combo, it: &Item, seed: u64) -> String {
    render_with(it, seed, More { sizer: true, writer: c.std, ..More::default() })
}

pub fn render_with(it: &Item, seed: u64, more: More) -> String {
    let mut o = String::new();
    let mut body = String::new();
    match it {
        Item::Prim { sp, prim, std140, std430 } => {
            let def = CaseDef { mode: Mode::Both, glsl: false, structs: vec![] };
            let t = FTy::Prim { sp: sp.clone(), prim: *prim };
            for (r, std) in [(0, Std::Std140), (0, Std::Std430), (1, Std::Std140), (1, Std::Std430)] {
                if if std == Std::Std140 { *std140 } else { *std430 } {
                    let w = literal::words(&def, &t, seed.wrapping_add(r));
                    body += &literal::check_block(&def, &t, &literal::absolute(sp), std, &w, literal::glsl_name(&def, &t).as_deref(), more);
                }
            }
            if *std140 {
                let t = FTy::Dyn(Box::new(t));
                let w = literal::words(&def, &t, seed ^ 5);
                let sp = format!("::crevice::std140::DynamicUniform<{}>", literal::absolute(sp));
                body += &literal::check_block(&def, &t, &sp, Std::Std140, &w, None, more);
            }
        }
        Item::Case(def) => {
            for s in &def.structs {
                let f: Vec<String> = s.fields.iter().map(|f| format!("pub {}: {}", f.name, spell(def, &f.ty))).collect();
                let d: Vec<String> = def.derives().split(", ").map(|d| format!("::{d}")).collect();
                o += &format!("#[derive({})]\npub struct {} {{ {} }}\n", d.join(", "), s.name, f.join(", "));
            }
            for i in 0..def.structs.len() {
                let t = FTy::Struct(i);
                for std in [Std::Std140, Std::Std430] {
                    if def.mode.has(std) {
                        let w = literal::words(def, &t, seed ^ i as u64);
                        body += &literal::check_block(def, &t, &def.structs[i].name, std, &w, literal::glsl_name(def, &t).as_deref(), more);
                    }
                }
                if def.glsl {
                    let s = &def.structs[i];
                    let mut want = format!("struct {} {{\n", bare(&s.name));
                    for f in &s.fields {
                        want += &format!("\t{} {};\n", literal::glsl_name(def, &f.ty).unwrap(), bare(&f.name));
                    }
                    want += "};";
                    // White space is the generator's own business.
                    body += &format!(
                        "{{ let d = <{} as ::crevice::glsl::GlslStruct>::glsl_definition(); let squeeze = |s: &str| -> ::std::string::String {{ s.split_whitespace().collect::<::std::vec::Vec<_>>().join(\" \") }}; if squeeze(&d) != squeeze({want:?}) {{ fail!(\"wrong GLSL definition\"); }} }}\n",
                        s.name
                    );
                }
            }
        }
    }
    format!("{o}pub fn check() -> ::core::result::Result<(), &'static str> {{\n{body}    Ok(())\n}}\n")
}

fn spell(c: &CaseDef, t: &FTy) -> String {
    match t {
        FTy::Dyn(t) => format!("::crevice::std140::DynamicUniform<{}>", spell(c, t)),
        FTy::Struct(i) => c.structs[*i].name.clone(),
        FTy::Out(i) => c.out_name(*i),
        FTy::Prim { sp, .. } => literal::absolute(sp),
    }
}

fn write(dir: &Path, c: &Combo, items: &[(usize, Item)], seed: u64) {
    std::fs::create_dir_all(dir).unwrap_or_else(|e| die(e));
    let mut main = String::new();
    if !c.std {
        main += "#![no_std]\n";
    }
    if c.freestanding() {
        main += "#![no_main]\n";
    }
    main += "#![allow(warnings)]\n";
    if !c.std && !c.freestanding() {
        main += "extern crate std;\n";
    }
    main += "macro_rules! fail { ($m:expr) => { return ::core::result::Result::Err($m) } }\n";
    let mut table = String::new();
    for (i, it) in items {
        std::fs::write(dir.join(format!("c{i}.rs")), render(c, it, seed ^ ((*i as u64) << 20))).unwrap_or_else(|e| die(e));
        main += &format!("pub mod c{i};\n");
        table += &format!("({i}, c{i}::check), ");
    }
    main += &format!("type Check = fn() -> ::core::result::Result<(), &'static str>;\nstatic CHECKS: [(u32, Check); {}] = [{table}];\n", items.len());
    if c.freestanding() {
        main += "\
#[panic_handler] fn panic(_: &core::panic::PanicInfo) -> ! { unsafe { say(\"PANIC\\n\"); _exit(101) } }
#[no_mangle] extern \"C\" fn rust_eh_personality() {}
#[link(name = \"c\")] extern \"C\" { fn write(fd: i32, p: *const u8, n: usize) -> isize; fn _exit(c: i32) -> !; }
fn say(s: &str) { unsafe { write(1, s.as_ptr(), s.len()); } }
fn number(mut n: u32) { let mut b = [b'0'; 10]; let mut i = 10; loop { i -= 1; b[i] = b'0' + (n % 10) as u8; n /= 10; if n == 0 { break; } } say(core::str::from_utf8(&b[i..]).unwrap_or(\"?\")); }
#[no_mangle] pub extern \"C\" fn main(_: i32, _: *const *const u8) -> i32 {
    for (i, f) in CHECKS.iter() { if let Err(m) = f() { say(\"FAIL \"); number(*i); say(\" \"); say(m); say(\"\\n\"); } }
    say(\"DONE\\n\");
    0
}
";
    } else {
        main += "fn main() {\n    for (i, f) in CHECKS.iter() { if let Err(m) = f() { ::std::println!(\"FAIL {} {}\", i, m); } }\n    ::std::println!(\"DONE\");\n}\n";
    }
    std::fs::write(dir.join("main.rs"), main).unwrap_or_else(|e| die(e));
}

enum Outcome {
    CompileError(build::CompileError),
    Ran(BTreeMap<usize, String>),
    Crash(String),
}

fn run(env: &Env, c: &Combo, dir: &Path, items: usize) -> Outcome {
    let bin = dir.join("prog");
    let mut extra = vec!["--crate-name=generated"];
    if c.freestanding() {
        extra.extend(["-Cpanic=abort", "-Clink-arg=-lc"]);
    }
    if let Err(e) = build::compile(env, &dir.join("main.rs"), &bin, "2021", &extra) {
        return Outcome::CompileError(if items == 1 { e } else { e.decided() });
    }
    let (code, out, err) = build::run_timeout(Command::new(&bin), Duration::from_secs(120)).unwrap_or_else(|e| die(e));
    let _ = std::fs::remove_file(&bin);
    if code != Some(0) || !out.contains("DONE") {
        return Outcome::Crash(format!("with features {} the program died (exit {code:?}): {} {err}", c.name(), out.lines().last().unwrap_or("")));
    }
    let bad = out
        .lines()
        .filter_map(|l| l.strip_prefix("FAIL "))
        .filter_map(|l| l.split_once(' '))
        .map(|(i, m)| (i.parse().unwrap_or(0), format!("with features {}: {m}", c.name())))
        .collect();
    Outcome::Ran(bad)
}

/// What is wrong with each item, if anything.
fn judge(env: &Env, c: &Combo, items: &[(usize, Item)], seed: u64) -> Vec<(usize, String)> {
    let dir = batch::scratch_dir(env);
    write(&dir, c, items, seed);
    let r = run(env, c, &dir, items.len());
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Outcome::Ran(b) => b.into_iter().collect(),
        Outcome::CompileError(e) if items.len() == 1 => {
            vec![(items[0].0, format!("with features {} a supported definition does not compile: {}", c.name(), e.text.chars().take(2000).collect::<String>()))]
        }
        Outcome::Crash(m) if items.len() == 1 => vec![(items[0].0, m)],
        Outcome::CompileError(_) | Outcome::Crash(_) => {
            let mut out = vec![];
            for part in items.chunks(items.len().div_ceil(8)) {
                out.extend(judge(env, c, part, seed));
                if out.len() >= 3 {
                    break;
                }
            }
            if out.is_empty() {
                die(format!("features {}: the parts compile and run, the whole does not", c.name()));
            }
            out
        }
    }
}

pub fn check(ctx: &Ctx) -> Report {
    let mut runner = TestRunner::new_with_rng(vs::run::config(1), vs::run::rng(ctx.seed, crate::salt("C18")));
    let combos = Combo::all();
    let cases = if ctx.thorough { 160 } else { 24 };
    let mut violations: Vec<(String, Combo, Option<(usize, Item)>, Option<Box<dyn ValueTree<Value = CaseDef>>>)> = vec![];
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut work: Vec<(Env, Combo, Vec<(usize, Item)>)> = vec![];
    let mut trees: Vec<Vec<(usize, Box<dyn ValueTree<Value = CaseDef>>)>> = vec![];
    let mut seen = HashSet::new();
    let mut samples = vec![];
    let mut n = 0;
    for c in &combos {
        let env = match build(&ctx.env, c) {
            Ok(e) => e,
            Err(m) => {
                violations.push((m, c.clone(), None, None));
                continue;
            }
        };
        let base = Flavor { libs: c.types(), custom: false, big: false, huge: false, max_structs: 3, max_fields: 20, ..Flavor::default() };
        let mut items: Vec<(usize, Item)> = gen::prims()
            .into_iter()
            .filter(|p| base.lib_ok(p))
            .map(|p| Item::Prim { sp: p.sp, prim: p.prim, std140: p.std140, std430: p.std430 })
            .enumerate()
            .collect();
        let mut t = vec![];
        for i in 0..cases {
            let f = if i % 3 == 0 && c.std { Flavor { glsl: true, dynamic: false, ..base.clone() } } else { base.clone() };
            let tree: Box<dyn ValueTree<Value = CaseDef>> = Box::new(gen::case(&f).new_tree(&mut runner).unwrap_or_else(|e| die(e)));
            items.push((items.len(), Item::Case(tree.current())));
            t.push((items.len() - 1, tree));
        }
        for (_, it) in &items {
            n += 1;
            *classes.entry(c.name()).or_default() += 1;
            let text = render(c, it, 1);
            if seen.insert((c.name(), text)) && samples.len() < 6 && n % 211 == 17 {
                samples.push(json!({"features": c.name(), "item": match it { Item::Prim { sp, .. } => json!(sp), Item::Case(d) => Src::Case(d.clone()).show() }}));
            }
        }
        // Shards of bounded size.
        for chunk in items.chunks(70) {
            work.push((env.clone(), c.clone(), chunk.to_vec()));
        }
        trees.push(t);
    }
    let seed = ctx.seed;
    let res = batch::par(&work, |_, (e, c, items)| judge(e, c, items, seed));
    for ((_, c, items), r) in work.iter().zip(res) {
        for (i, m) in r {
            let it = items.iter().find(|x| x.0 == i).cloned();
            let built = combos.iter().filter(|x| !violations.iter().any(|v| v.2.is_none() && v.1 == **x)).position(|x| x == c);
            let tree = built.and_then(|k| trees[k].iter().position(|t| t.0 == i).map(|p| trees[k].swap_remove(p).1));
            violations.push((m, c.clone(), it, tree));
        }
    }
    violations.sort_by_key(|v| v.2.as_ref().map_or(0, |i| 1 + render(&v.1, &i.1, 1).len()));
    let mut out = vec![];
    for (i, (mut m, c, it, tree)) in violations.into_iter().take(3).enumerate() {
        let mut it = it;
        if let (Some(mut tree), Some((id, _)), 0, Ok(env)) = (tree, it.clone(), i, build(&ctx.env, &c)) {
            let t0 = Instant::now();
            let mut go = tree.simplify();
            while go && t0.elapsed() < Duration::from_secs(45) {
                let cur = Item::Case(tree.current());
                match judge(&env, &c, &[(id, cur.clone())], seed).pop() {
                    Some((_, m2)) => {
                        (m, it) = (m2, Some((id, cur)));
                        go = tree.simplify();
                    }
                    None => go = tree.complicate(),
                }
            }
        }
        let dir = ctx.root.join("replays").join(format!("C18-{}-{i}", ctx.seed));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(e));
        if let Some(it) = &it {
            write(&dir, &c, &[it.clone()], seed);
        }
        crate::save_json(&dir, &json!({"property": "C18", "kind": "combos", "seed": seed, "message": m, "features": c, "item": it}));
        out.push((m, dir));
    }
    Report {
        evaluations: n,
        nontrivial: seen.len() as u64,
        rule: "all 16 combinations of std, cgmath, glam and nalgebra; in each, every built-in type that it has and random struct definitions, with random values whose expected encoding, GLSL text, Sizer and (std) Writer results come from the layout model; without std the programs are no_std (and, without cgmath, have no std linked at all); distinct by features and text".into(),
        samples,
        extra: json!({"classes": classes, "programs": work.len()}),
        violations: out,
        known: vec![],
        assumptions: vec!["glam is given one of its own math backends (std or libm), which it needs with any feature set of crevice".into()],
    }
}

pub fn replay(env: &Env, dir: &Path, f: &serde_json::Value) -> Option<String> {
    let c: Combo = serde_json::from_value(f["features"].clone()).unwrap_or_else(|e| die(e));
    let e = match build(env, &c) {
        Ok(e) => e,
        Err(m) => return Some(m),
    };
    if !dir.join("main.rs").exists() {
        return None;
    }
    match run(&e, &c, dir, 1) {
        Outcome::Ran(b) => b.into_values().next(),
        Outcome::CompileError(e) => Some(e.text),
        Outcome::Crash(m) => Some(m),
    }
}
