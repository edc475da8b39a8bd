//! C22: the same results on other targets (run by miri) and in optimised programs.

use crate::batch::{self, Src};
use crate::build::{self, die, Env};
use crate::combos::{render_with, Item};
use crate::gen::{self, CaseDef, FTy, Flavor};
use crate::literal::{self, More};
use crate::miri::{Deps, Failure};
use crate::{Ctx, Report};
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::TestRunner;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::path::Path;
use std::process::Command;
use std::time::{Duration, Instant};
use vs::model::{self, Std};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Config {
    /// None: this machine, optimised, without debug assertions.
    pub target: Option<String>,
    pub big: bool,
}
impl Config {
    fn name(&self) -> String {
        self.target.clone().unwrap_or("this machine, optimised".into())
    }
}

/// Target and whether it is big-endian.
const QUICK: [(&str, bool); 2] = [("i686-unknown-linux-gnu", false), ("s390x-unknown-linux-gnu", true)];
const MORE: [(&str, bool); 3] = [("powerpc-unknown-linux-gnu", true), ("armv7-unknown-linux-gnueabihf", false), ("aarch64-unknown-linux-gnu", false)];

pub enum Built {
    Native(Env),
    Miri(Deps),
}

fn build(env: &Env, c: &Config) -> Result<Built, Failure> {
    if let Some(t) = &c.target {
        return Deps::build_for(env, Some(t)).map(Built::Miri);
    }
    let mut cmd = Command::new("cargo");
    cmd.current_dir(env.root.join("combos"))
        .args(["build", "--release", "--offline", "--locked", "--message-format=json", "--features", "std,cgmath,glam,nalgebra"])
        .env("CARGO_TARGET_DIR", env.root.join("target/combos"))
        .env_remove("RUSTFLAGS");
    let (code, out, err) = build::run_timeout(cmd, Duration::from_secs(600)).unwrap_or_else(|e| die(e));
    match code {
        Some(0) => Ok(Built::Native(Env::from_json(&env.root, &out, &env.scratch, &["crevice", "mint", "bytemuck", "cgmath", "glam", "nalgebra"]))),
        _ => Err(Failure::Rejected(err)),
    }
}

/// One thing to write: the type as seen from the crate's root, and a value.
struct Step {
    ty: FTy,
    def: CaseDef,
    sp: String,
    scope: String,
    words: Vec<u64>,
}

/// A history over all items: every offset that Writer and Sizer return.
fn history(items: &[(usize, Item)], std: Std, big: bool, seed: u64) -> String {
    let mut steps = vec![];
    for (i, it) in items {
        match it {
            Item::Prim { sp, prim, std140, std430 } => {
                if if std == Std::Std140 { *std140 } else { *std430 } {
                    let def = CaseDef { mode: gen::Mode::Both, glsl: false, structs: vec![] };
                    let ty = FTy::Prim { sp: sp.clone(), prim: *prim };
                    let words = literal::words(&def, &ty, seed ^ *i as u64);
                    steps.push(Step { words, ty, sp: literal::absolute(sp), def, scope: String::new() });
                }
            }
            Item::Case(def) if def.mode.has(std) => {
                let ty = FTy::Struct(def.structs.len() - 1);
                let words = literal::words(def, &ty, seed ^ *i as u64);
                steps.push(Step { words, ty, sp: def.structs[def.structs.len() - 1].name.clone(), def: def.clone(), scope: format!("c{i}") });
            }
            _ => {}
        }
    }
    // A fixed shuffle, so that sizes and alignments mix.
    let mut x = seed | 1;
    for i in (1..steps.len()).rev() {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        steps.swap(i, (x >> 33) as usize % (i + 1));
    }
    let m = std.name();
    let up = if std == Std::Std140 { "140" } else { "430" };
    let mut o = format!(
        "    {{ let mut out: ::std::vec::Vec<u8> = ::std::vec::Vec::new(); let mut w = ::crevice::{m}::Writer::new(&mut out); let mut s = ::crevice::{m}::Sizer::new();\n"
    );
    let mut want: Vec<u8> = vec![];
    for st in &steps {
        let ty = st.def.ty(&st.ty);
        let l = model::layout(&ty, std);
        let at = model::up(want.len(), l.align.max(1));
        want.resize(at, 0);
        want.extend(literal::encoding(&ty, std, &st.words, big));
        let open = if st.scope.is_empty() { String::new() } else { format!("use crate::{}::*; ", st.scope) };
        let mut it = st.words.iter().copied();
        let v = literal::value(&st.def, &st.ty, &mut it);
        let sp = &st.sp;
        o += &format!(
            "    {{ {open}let v: {sp} = {v}; let a = s.add::<{sp}>(); let b = w.write(&v).ok(); \
             if a != {at} || b != ::core::option::Option::Some({at}) || s.len() != {len} || w.len() != {len} {{ fail!(\"{m}: a later value is misplaced\"); }} \
             if ::crevice::{m}::WriteStd{up}::{m}_size(&v) != {size} {{ fail!(\"{m}: wrong dynamic size\"); }} }}\n",
            len = want.len(),
            size = l.size,
        );
    }
    o += &format!("    static WANT: [u8; {}] = {}; if out[..] != WANT[..] {{ fail!(\"{m}: wrong bytes in a history\"); }} }}\n", want.len(), literal::bytes(&want));
    o
}

fn write(dir: &Path, c: &Config, items: &[(usize, Item)], seed: u64) {
    let src = dir.join("src");
    std::fs::create_dir_all(&src).unwrap_or_else(|e| die(e));
    let mut main = String::from("#![allow(warnings)]\nmacro_rules! fail { ($m:expr) => { return ::core::result::Result::Err($m) } }\n");
    let mut calls = String::new();
    let call = |i: usize| format!("    println!(\"AT {i}\"); if let Err(m) = c{i}::check() {{ println!(\"FAIL {i} {{}}\", m); }}\n");
    for (i, it) in items {
        let more = More { sizer: true, writer: true, slice: true, big: c.big, ..More::default() };
        std::fs::write(src.join(format!("c{i}.rs")), render_with(it, seed ^ ((*i as u64) << 20), more)).unwrap_or_else(|e| die(e));
        main += &format!("pub mod c{i};\n");
        calls += &call(*i);
    }
    let h = items.last().map_or(0, |x| x.0) + 1000;
    let body: String = [Std::Std140, Std::Std430].iter().map(|s| history(items, *s, c.big, seed)).collect();
    std::fs::write(src.join(format!("c{h}.rs")), format!("pub fn check() -> ::core::result::Result<(), &'static str> {{\n{body}    Ok(())\n}}\n")).unwrap_or_else(|e| die(e));
    main += &format!("pub mod c{h};\n");
    calls += &call(h);
    main += &format!("fn main() {{\n{calls}    println!(\"DONE\");\n}}\n");
    std::fs::write(src.join("main.rs"), main).unwrap_or_else(|e| die(e));
}

enum Outcome {
    Ran(BTreeMap<usize, String>),
    CompileError(String),
    /// The item it happened in.
    Crash(usize, String),
    Nothing(String),
}

fn run(b: &Built, c: &Config, dir: &Path) -> Outcome {
    let (code, out, err) = match b {
        Built::Native(env) => {
            let bin = dir.join("prog");
            if let Err(e) = build::compile(
                env,
                &dir.join("src/main.rs"),
                &bin,
                "2021",
                &["--crate-name=generated", "-Copt-level=3", "-Coverflow-checks=off", "-Cdebug-assertions=off", "-Ccodegen-units=1"],
            ) {
                return Outcome::CompileError(e.decided().text);
            }
            let r = build::run_timeout(Command::new(&bin), Duration::from_secs(120));
            let _ = std::fs::remove_file(&bin);
            r
        }
        Built::Miri(deps) => {
            let mut c = deps.command(dir);
            c.arg("src/main.rs");
            build::run_timeout(c, Duration::from_secs(600))
        }
    }
    .unwrap_or_else(|e| die(e));
    let bad: BTreeMap<usize, String> = out
        .lines()
        .filter_map(|l| l.strip_prefix("FAIL "))
        .filter_map(|l| l.split_once(' '))
        .map(|(i, m)| (i.parse().unwrap_or(0), format!("on {}: {m}", c.name())))
        .collect();
    if code == Some(0) && out.contains("DONE") {
        return Outcome::Ran(bad);
    }
    let tail: String = err.chars().take(2000).collect();
    if let Some(i) = out.lines().filter_map(|l| l.strip_prefix("AT ")).last().and_then(|i| i.parse().ok()) {
        if code.is_none() || err.contains("unsupported operation") {
            return Outcome::Nothing(tail);
        }
        return Outcome::Crash(i, format!("on {} the program died: {tail}", c.name()));
    }
    if code == Some(1) && err.contains("error") && matches!(b, Built::Miri(_)) {
        return Outcome::CompileError(tail);
    }
    Outcome::Nothing(tail)
}

/// What is wrong with each item, if anything, and what got no answer.
fn judge(env: &Env, b: &Built, c: &Config, items: &[(usize, Item)], seed: u64) -> (Vec<(usize, String)>, Option<String>) {
    let dir = batch::scratch_dir(env);
    write(&dir, c, items, seed);
    let r = run(b, c, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Outcome::Ran(b) => (b.into_iter().collect(), None),
        Outcome::Crash(i, m) => (vec![(i, m)], None),
        Outcome::Nothing(m) => (vec![], Some(m)),
        Outcome::CompileError(m) if items.len() == 1 => (vec![(items[0].0, format!("on {} a supported definition does not compile: {m}", c.name()))], None),
        Outcome::CompileError(_) => {
            let mut out = vec![];
            let mut note = None;
            for part in items.chunks(items.len().div_ceil(8)) {
                let (v, n) = judge(env, b, c, part, seed);
                out.extend(v);
                note = note.or(n);
                if out.len() >= 2 {
                    break;
                }
            }
            (out, note)
        }
    }
}

pub fn check(ctx: &Ctx) -> Report {
    let env = &ctx.env;
    let mut runner = TestRunner::new_with_rng(vs::run::config(1), vs::run::rng(ctx.seed, crate::salt("C22")));
    let mut configs = vec![Config { target: None, big: cfg!(target_endian = "big") }];
    configs.extend(QUICK.iter().chain(if ctx.thorough { &MORE[..] } else { &[] }).map(|(t, big)| Config { target: Some(t.to_string()), big: *big }));
    let built = batch::par(&configs, |_, c| build(env, c));
    let mut notes: BTreeMap<String, String> = BTreeMap::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut violations: Vec<(String, Config, Vec<(usize, Item)>, Option<Box<dyn ValueTree<Value = CaseDef>>>)> = vec![];
    let mut seen = HashSet::new();
    let mut samples = vec![];
    let mut n = 0;
    let mut all = vec![];
    for (c, b) in configs.iter().zip(built) {
        match b {
            Ok(b) => all.push((c.clone(), b)),
            Err(Failure::Rejected(m)) => violations.push((format!("crevice does not build for {}: {m}", c.name()), c.clone(), vec![], None)),
            Err(Failure::Nothing(m)) => {
                notes.insert(c.name(), m);
            }
        }
    }
    let mut work = vec![];
    let mut trees: BTreeMap<(usize, usize), Box<dyn ValueTree<Value = CaseDef>>> = BTreeMap::new();
    for (k, (c, _)) in all.iter().enumerate() {
        let f = Flavor { big: false, huge: false, custom: false, max_structs: 3, max_fields: 14, ..Flavor::default() };
        let mut items: Vec<(usize, Item)> = gen::prims()
            .into_iter()
            .map(|p| Item::Prim { sp: p.sp, prim: p.prim, std140: p.std140, std430: p.std430 })
            .enumerate()
            .collect();
        let cases = match (c.target.is_none(), ctx.thorough) {
            (true, false) => 120,
            (true, true) => 1200,
            (false, false) => 32,
            (false, true) => 240,
        };
        for i in 0..cases {
            let f = if i % 4 == 0 { Flavor { glsl: true, dynamic: false, ..f.clone() } } else { f.clone() };
            let t: Box<dyn ValueTree<Value = CaseDef>> = Box::new(gen::case(&f).new_tree(&mut runner).unwrap_or_else(|e| die(e)));
            items.push((items.len(), Item::Case(t.current())));
            trees.insert((k, items.len() - 1), t);
        }
        let shards = items.len().div_ceil(24).max(4);
        for s in 0..shards {
            work.push((k, items.iter().skip(s).step_by(shards).cloned().collect::<Vec<_>>()));
        }
    }
    let seed = ctx.seed;
    let res = batch::par(&work, |_, (k, items)| judge(env, &all[*k].1, &all[*k].0, items, seed));
    for ((k, items), (bad, note)) in work.iter().zip(res) {
        let c = &all[*k].0;
        if let Some(m) = note {
            notes.insert(c.name(), m);
            continue;
        }
        for (_, it) in items {
            n += 1;
            *classes.entry(c.name()).or_default() += 1;
            let text = render_with(it, 1, More::default());
            if seen.insert((c.name(), text)) && samples.len() < 6 && n % 97 == 17 {
                samples.push(json!({"on": c.name(), "item": match it { Item::Prim { sp, .. } => json!(sp), Item::Case(d) => Src::Case(d.clone()).show() }}));
            }
        }
        for (i, m) in bad {
            match items.iter().find(|x| x.0 == i) {
                Some(it) => violations.push((m, c.clone(), vec![it.clone()], trees.remove(&(*k, i)))),
                // The history over all of them.
                None => violations.push((m, c.clone(), items.clone(), None)),
            }
        }
    }
    if n == 0 && violations.is_empty() {
        die(format!("nothing could be run: {notes:?}"));
    }
    violations.sort_by_key(|v| v.2.iter().map(|i| 1 + render_with(&i.1, 1, More::default()).len()).sum::<usize>());
    let mut out = vec![];
    for (i, (mut m, c, mut items, tree)) in violations.into_iter().take(3).enumerate() {
        let b = all.iter().find(|x| x.0 == c).map(|x| &x.1);
        let t0 = Instant::now();
        if let (0, Some(b)) = (i, b) {
            if let Some(mut tree) = tree {
                let id = items[0].0;
                let mut go = tree.simplify();
                while go && t0.elapsed() < Duration::from_secs(60) {
                    let cur = vec![(id, Item::Case(tree.current()))];
                    match judge(env, b, &c, &cur, seed).0.pop() {
                        Some((_, m2)) => {
                            (m, items) = (m2, cur);
                            go = tree.simplify();
                        }
                        None => go = tree.complicate(),
                    }
                }
            } else {
                // Fewer items that still fail.
                let mut k = 0;
                while k < items.len() && items.len() > 1 && t0.elapsed() < Duration::from_secs(60) {
                    let mut fewer = items.clone();
                    fewer.remove(k);
                    match judge(env, b, &c, &fewer, seed).0.pop() {
                        Some((_, m2)) => (m, items) = (m2, fewer),
                        None => k += 1,
                    }
                }
            }
        }
        let dir = ctx.root.join("replays").join(format!("C22-{}-{i}", ctx.seed));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(e));
        if !items.is_empty() {
            write(&dir, &c, &items, seed);
        }
        crate::save_json(&dir, &json!({"property": "C22", "kind": "targets", "seed": seed, "message": m, "config": c, "items": items}));
        out.push((m, dir));
    }
    Report {
        evaluations: n,
        nontrivial: seen.len() as u64,
        rule: "every built-in type and random struct definitions, with random values, on 32-bit and big-endian targets (interpreted by miri) and in an optimised program without debug assertions; expected sizes, alignments, bytes in the target's byte order, GLSL text, and Writer and Sizer histories over all of them come from the layout model; distinct by target and text".into(),
        samples,
        extra: json!({"classes": classes, "programs": work.len(), "no answer": notes}),
        violations: out,
        known: vec![],
        assumptions: vec!["miri executes a target's programs as that target would".into()],
    }
}

pub fn replay(env: &Env, dir: &Path, f: &serde_json::Value) -> Option<String> {
    let c: Config = serde_json::from_value(f["config"].clone()).unwrap_or_else(|e| die(e));
    let b = match build(env, &c) {
        Ok(b) => b,
        Err(Failure::Rejected(m)) => return Some(m),
        Err(Failure::Nothing(m)) => die(m),
    };
    if !dir.join("src/main.rs").exists() {
        return None;
    }
    match run(&b, &c, dir) {
        Outcome::Ran(b) => b.into_values().next(),
        Outcome::CompileError(m) | Outcome::Crash(_, m) => Some(m),
        Outcome::Nothing(m) => die(m),
    }
}
