//! Runs generated definitions through the runtime properties: renders programs,
//! compiles and runs them in parallel, isolates and shrinks failures.

use crate::build::{self, die, Env};
use crate::gen::{CaseDef, PrimTy};
use proptest::strategy::ValueTree;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};
use vs::model::Std;
use vs::run::Failure;

pub enum Item {
    Prim(PrimTy),
    Case(Box<dyn ValueTree<Value = CaseDef>>),
}

/// How cases are registered.
#[derive(Clone, Debug)]
pub struct Style {
    pub prop: String,
    pub twins: bool,
    pub huge: bool,
    /// Register nested structs too, not only the root.
    pub all_structs: bool,
    pub values: u32,
    pub known: Vec<String>,
}

#[derive(Clone, Debug)]
pub enum Src {
    Prim(PrimTy),
    Case(CaseDef),
}
impl Src {
    pub fn show(&self) -> Value {
        match self {
            Src::Prim(p) => json!(p.sp),
            Src::Case(c) => json!({"derives": c.derives(), "definitions": c.structs.iter().map(|s| format!(
                "struct {} {{ {} }}", s.name, s.fields.iter().map(|f| format!("{}: {}", f.name, c.spell(&f.ty))).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>()}),
        }
    }
}

fn render_prim(id: usize, p: &PrimTy, st: &Style) -> String {
    let reg = |name: &str, sp: &str| {
        let f = if p.std140 && p.std430 {
            "both"
        } else if p.std140 {
            "only140"
        } else {
            "only430"
        };
        let g = if p.glsl { format!("Some(vs::ops::glsl_prim::<{sp}>)") } else { "None".into() };
        format!("    r.{f}::<{sp}>({id}, {name:?}, {g});\n")
    };
    let mut o = String::from("pub fn reg(r: &mut vs::Reg) {\n");
    o += &reg(&p.sp, &p.sp);
    if st.twins {
        // The mint twin of a type that only one layout accepts is registered for
        // that layout only, which is what `f` does.
        o += &reg(&format!("mint:{}", p.sp), &crate::gen::mint_spelling(p.prim));
    }
    o += "}\n";
    o
}

fn render_case(id: usize, c: &CaseDef, st: &Style) -> String {
    let f = match (c.mode.has(Std::Std140), c.mode.has(Std::Std430)) {
        (true, true) => "both",
        (true, false) => "only140",
        _ => "only430",
    };
    let mut regs = String::new();
    let mut o = String::new();
    let n = c.structs.len();
    o += &c.render_defs();
    if st.twins {
        o += "pub mod twin {\n";
        o += &c.twin().render_defs();
        o += "}\n";
    }
    for (i, s) in c.structs.iter().enumerate() {
        if i + 1 < n && !st.all_structs {
            continue;
        }
        let name = format!("c{id}::{}", s.name);
        let g = |p: &str| if c.glsl { format!("Some(vs::ops::glsl_struct::<{p}{}>)", s.name) } else { "None".into() };
        regs += &format!("    r.{f}::<{}>({id}, {name:?}, {});\n", s.name, g(""));
        for std in [Std::Std140, Std::Std430] {
            if c.mode.has(std) {
                let (m, up) = (std.name(), if std == Std::Std140 { "140" } else { "430" });
                regs += &format!(
                    "    r.as_bytes({name:?}, vs::model::Std::Std{up}, |w| {{ let g = <{} as ::crevice::{m}::AsStd{up}>::as_{m}(&vs::host::from_words(w)); g.as_bytes().to_vec() }});\n",
                    s.name
                );
            }
        }
        if st.twins {
            regs += &format!("    r.{f}::<twin::{}>({id}, {:?}, {});\n", s.name, format!("mint:{name}"), g("twin::"));
        }
    }
    o + "pub fn reg(r: &mut vs::Reg) {\n" + &regs + "}\n"
}

pub fn write_program(dir: &Path, items: &[(usize, Src)], st: &Style) {
    std::fs::create_dir_all(dir).unwrap_or_else(|e| die(e));
    let mut main = String::from("#![allow(warnings)]\n");
    let mut regs = String::new();
    for (id, s) in items {
        let text = match s {
            Src::Prim(p) => render_prim(*id, p, st),
            Src::Case(c) => render_case(*id, c, st),
        };
        std::fs::write(dir.join(format!("c{id}.rs")), text).unwrap_or_else(|e| die(e));
        main += &format!("mod c{id};\n");
        regs += &format!("    c{id}::reg(&mut r);\n");
    }
    if st.prop == "dump" {
        regs += "    r.both::<u32>(999_999, \"u32\", None);\n";
    }
    if st.huge {
        regs += "    r.huge_types();\n";
    }
    main += &format!("fn main() {{\n    let mut r = vs::Reg::default();\n{regs}    vs::run_main(r);\n}}\n");
    std::fs::write(dir.join("main.rs"), main).unwrap_or_else(|e| die(e));
}

pub enum Outcome {
    CompileError(build::CompileError),
    Crash(String),
    Ran(Value),
}

static NEXT: AtomicUsize = AtomicUsize::new(0);

pub fn scratch_dir(env: &Env) -> PathBuf {
    env.scratch.join(format!("p{}", NEXT.fetch_add(1, Ordering::SeqCst)))
}

pub fn run_program(env: &Env, dir: &Path, st: &Style, seed: u64, extra: &[String]) -> Outcome {
    let bin = dir.join("prog");
    if let Err(e) = build::compile(env, &dir.join("main.rs"), &bin, "2021", &[]) {
        return Outcome::CompileError(e);
    }
    let mut c = Command::new(&bin);
    c.args(["--prop", &st.prop, "--seed", &seed.to_string(), "--cases", &st.values.to_string(), "--known", &st.known.join("\n")]);
    c.args(extra);
    let (code, out, err) = build::run_timeout(c, Duration::from_secs(400)).unwrap_or_else(|e| die(e));
    let _ = std::fs::remove_file(&bin);
    match code {
        Some(0) => {}
        Some(2) => die(format!("generated program: {}", err)),
        Some(101) if err.contains("harness:") || out.contains("harness:") => die(format!("generated program: {}", err)),
        _ => {
            return Outcome::Crash(format!(
                "the program died (exit {code:?}): {}",
                err.chars().rev().take(1500).collect::<String>().chars().rev().collect::<String>()
            ))
        }
    }
    for l in out.lines() {
        if let Some(j) = l.strip_prefix("RESULT ") {
            let mut v: Value = serde_json::from_str(j).unwrap_or_else(|e| die(e));
            let dumps: Vec<Value> =
                out.lines().filter_map(|l| l.strip_prefix("DUMP ")).map(|j| serde_json::from_str(j).unwrap_or_else(|e| die(e))).collect();
            v["dumps"] = json!(dumps);
            return Outcome::Ran(v);
        }
    }
    die("generated program printed no result")
}

fn eval(env: &Env, items: &[(usize, Src)], st: &Style, seed: u64) -> (Outcome, PathBuf) {
    let dir = scratch_dir(env);
    write_program(&dir, items, st);
    (run_program(env, &dir, st, seed, &[]), dir)
}

#[derive(Default, Debug)]
pub struct Totals {
    pub evaluations: u64,
    pub nontrivial: std::collections::HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, u64>,
    pub programs: u64,
    pub types: u64,
    pub dumps: Vec<Value>,
}
impl Totals {
    pub fn merge(&mut self, t: Totals) {
        self.evaluations += t.evaluations;
        self.nontrivial.extend(t.nontrivial);
        for (k, n) in t.classes {
            *self.classes.entry(k).or_default() += n;
        }
        for (k, n) in t.known {
            *self.known.entry(k).or_default() += n;
        }
        self.samples.extend(t.samples);
        self.programs += t.programs;
        self.types += t.types;
        self.dumps.extend(t.dumps);
    }
    pub fn add(&mut self, v: &Value) {
        self.evaluations += v["evaluations"].as_u64().unwrap_or(0);
        self.nontrivial.extend(v["nontrivial"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
        for (k, n) in v["classes"].as_object().into_iter().flatten() {
            *self.classes.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
        }
        for (k, n) in v["known"].as_object().into_iter().flatten() {
            *self.known.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
        }
        let s = v["samples"].as_array().cloned().unwrap_or_default();
        self.samples.extend(s.into_iter().take(2));
        self.programs += 1;
        self.types += v["types"].as_u64().unwrap_or(0);
        self.dumps.extend(v["dumps"].as_array().cloned().unwrap_or_default());
    }
}

pub struct Violation {
    pub message: String,
    pub items: Vec<(usize, Src)>,
    pub input: Option<Value>,
    /// Style that reproduces it.
    pub style: Style,
    /// Seen in an optimised program.
    pub opt: bool,
}

fn failures(v: &Value) -> Vec<Failure> {
    serde_json::from_value(v["failures"].clone()).unwrap_or_else(|e| die(e))
}

fn describe_compile(e: &build::CompileError) -> String {
    format!("a supported definition does not compile: {}", e.text.chars().take(1500).collect::<String>())
}

/// The smallest program that must compile for a compile error to mean anything.
fn control(env: &Env, st: &Style) {
    let mut s = st.clone();
    s.twins = false;
    let p = PrimTy { sp: "f32".into(), prim: vs::model::Prim::Scalar(vs::model::Kind::F32), std140: true, std430: true, glsl: true };
    let c = CaseDef {
        mode: crate::gen::Mode::Both,
        glsl: false,
        structs: vec![crate::gen::StructDef {
            name: "S".into(),
            fields: vec![crate::gen::Field { name: "a".into(), ty: crate::gen::FTy::Prim { sp: "f32".into(), prim: p.prim } }],
        }],
    };
    if let (Outcome::CompileError(e), _) = eval(env, &[(0, Src::Prim(p)), (1, Src::Case(c))], &s, 1) {
        die(format!("the control program does not compile: {}", e.text));
    }
}

/// Takes parts away from what fails together, as long as the rest fails.
pub fn fewest<T: Clone>(mut v: Vec<T>, mut message: String, fails: &dyn Fn(&[T]) -> Option<String>) -> (String, Vec<T>) {
    let t0 = std::time::Instant::now();
    let mut chunk = v.len() / 2;
    while chunk > 0 && t0.elapsed() < Duration::from_secs(60) {
        let mut i = 0;
        while i < v.len() && v.len() > 1 && t0.elapsed() < Duration::from_secs(60) {
            let rest: Vec<T> = v.iter().enumerate().filter(|x| !(i..i + chunk).contains(&x.0)).map(|x| x.1.clone()).collect();
            match if rest.is_empty() { None } else { fails(&rest) } {
                Some(m) => (message, v) = (m, rest),
                None => i += chunk,
            }
        }
        chunk /= 2;
    }
    (message, v)
}

/// Runs the selected items; returns totals and the violations found (shrunk).
pub fn run(
    env: &Env,
    items: &mut Vec<Item>,
    select: &dyn Fn(usize) -> bool,
    st: &Style,
    seed: u64,
    shards: usize,
    shrink_budget: Duration,
) -> (Totals, Vec<Violation>) {
    let mut totals = Totals::default();
    let mut violations = vec![];
    let src: Vec<Src> = items
        .iter()
        .map(|i| match i {
            Item::Prim(p) => Src::Prim(p.clone()),
            Item::Case(t) => Src::Case(t.current()),
        })
        .collect();
    let mut work: Vec<Vec<(usize, Src)>> = vec![vec![]; shards];
    for (k, (i, s)) in src.iter().enumerate().filter(|x| select(x.0)).enumerate() {
        work[k % shards].push((i, s.clone()));
    }
    work.retain(|w| !w.is_empty());
    // At most two rounds: without and then with the cases that do not compile removed.
    let mut bad: BTreeMap<usize, String> = BTreeMap::new();
    for round in 0..3 {
        let results: Vec<(Outcome, PathBuf)> = par(&work, |i, w| eval(env, w, st, seed ^ ((i as u64 + 1) << 32)));
        let mut again = vec![];
        for (w, (r, _dir)) in work.iter().zip(results) {
            match r {
                Outcome::Ran(v) => {
                    totals.add(&v);
                    for f in failures(&v) {
                        let used: Vec<(usize, Src)> =
                            if f.cases.is_empty() { w.clone() } else { w.iter().filter(|x| f.cases.contains(&x.0)).cloned().collect() };
                        violations.push(Violation { message: f.message, items: used, input: Some(f.input), style: st.clone(), opt: env.opt });
                    }
                }
                Outcome::CompileError(e) => {
                    if round == 2 {
                        die(format!("generated program does not compile: {}", e.text));
                    }
                    control(env, st);
                    // Which cases? Each suspect must fail on its own.
                    let mut suspects: Vec<(usize, Src)> =
                        w.iter().filter(|x| e.at.iter().any(|a| a.0 == format!("c{}", x.0))).cloned().collect();
                    if suspects.is_empty() {
                        suspects = w.clone();
                    }
                    let alone: Vec<Vec<(usize, Src)>> = suspects.iter().map(|s| vec![s.clone()]).collect();
                    let res = par(&alone, |_, w| eval(env, w, st, seed));
                    let before = bad.len();
                    for (s, (r, _)) in suspects.iter().zip(res) {
                        if let Outcome::CompileError(e) = r {
                            bad.insert(s.0, describe_compile(&e));
                        }
                    }
                    if bad.len() == before && e.gave_up {
                        die(format!("generated program: {}", e.text));
                    }
                    if bad.len() == before {
                        // Each compiles on its own: which ones together do not?
                        let fails = |w: &[(usize, Src)]| match eval(env, w, st, seed).0 {
                            Outcome::CompileError(e) => Some(describe_compile(&e)),
                            _ => None,
                        };
                        let (m, items) = fewest(w.clone(), describe_compile(&e), &fails);
                        violations.push(Violation {
                            message: format!("{} definitions that compile on their own do not compile in one crate: {m}", items.len()),
                            items,
                            input: None,
                            style: st.clone(),
                            opt: env.opt,
                        });
                        continue;
                    }
                    let rest: Vec<(usize, Src)> = w.iter().filter(|x| !bad.contains_key(&x.0)).cloned().collect();
                    if !rest.is_empty() {
                        again.push(rest);
                    }
                }
                Outcome::Crash(m) => {
                    let alone: Vec<Vec<(usize, Src)>> = w.iter().map(|s| vec![s.clone()]).collect();
                    let res = par(&alone, |_, w| eval(env, w, st, seed));
                    let mut any = false;
                    for (s, (r, _)) in w.iter().zip(res) {
                        if let Outcome::Crash(m) = r {
                            any = true;
                            violations.push(Violation { message: m, items: vec![s.clone()], input: None, style: st.clone(), opt: env.opt });
                        }
                    }
                    if !any {
                        violations.push(Violation { message: m, items: w.clone(), input: None, style: st.clone(), opt: env.opt });
                    }
                }
            }
        }
        work = again;
        if work.is_empty() {
            break;
        }
    }
    for (id, m) in &bad {
        violations.push(Violation { message: m.clone(), items: vec![(*id, src[*id].clone())], input: None, style: st.clone(), opt: env.opt });
    }
    // Shrink the smallest violation's definitions.
    violations.sort_by_key(|v| v.items.iter().map(|i| weight(&i.1)).sum::<usize>());
    if let Some(v) = violations.first_mut() {
        let t0 = Instant::now();
        shrink(env, v, items, seed, t0, shrink_budget);
    }
    (totals, violations)
}

fn weight(s: &Src) -> usize {
    match s {
        Src::Prim(_) => 1,
        Src::Case(c) => 2 + c.structs.iter().map(|s| 2 + s.fields.len()).sum::<usize>(),
    }
}

pub fn par<T: Sync, R: Send>(work: &[T], f: impl Fn(usize, &T) -> R + Sync) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let out: std::sync::Mutex<Vec<Option<R>>> = std::sync::Mutex::new((0..work.len()).map(|_| None).collect());
    std::thread::scope(|s| {
        for _ in 0..8.min(work.len()) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= work.len() {
                    break;
                }
                let r = f(i, &work[i]);
                out.lock().unwrap()[i] = Some(r);
            });
        }
    });
    out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}

/// Does the program still violate the property? Returns the new message and input.
fn still(env: &Env, items: &[(usize, Src)], st: &Style, seed: u64) -> Option<(String, Option<Value>)> {
    let (r, dir) = eval(env, items, st, seed);
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Outcome::CompileError(e) => Some((describe_compile(&e), None)),
        Outcome::Crash(m) => Some((m, None)),
        Outcome::Ran(v) => {
            let f = failures(&v);
            f.into_iter().min_by_key(|f| f.input.to_string().len()).map(|f| (f.message, Some(f.input)))
        }
    }
}

fn shrink(env: &Env, v: &mut Violation, items: &mut [Item], seed: u64, t0: Instant, budget: Duration) {
    let was_compile = v.input.is_none();
    // Histories: does it fail with fewer types?
    let mut st = v.style.clone();
    st.values = st.values.max(64);
    let Some((m, i)) = still(env, &v.items, &st, seed) else { return };
    if i.is_none() != was_compile {
        return;
    }
    (v.message, v.input) = (m, i);
    v.style = st.clone();
    let mut k = 0;
    while v.items.len() > 1 && k < v.items.len() && t0.elapsed() < budget {
        let mut fewer = v.items.clone();
        fewer.remove(k);
        match still(env, &fewer, &st, seed) {
            Some((m, i)) if i.is_none() == was_compile => {
                (v.message, v.input) = (m, i);
                v.items = fewer;
            }
            _ => k += 1,
        }
    }
    for k in 0..v.items.len() {
        let id = v.items[k].0;
        let Item::Case(tree) = &mut items[id] else { continue };
        let mut go = tree.simplify();
        while go && t0.elapsed() < budget {
            let mut cand = v.items.clone();
            cand[k].1 = Src::Case(tree.current());
            if let (Src::Case(a), Src::Case(b)) = (&cand[k].1, &v.items[k].1) {
                if serde_json::to_string(a).unwrap() == serde_json::to_string(b).unwrap() {
                    go = tree.simplify();
                    continue;
                }
            }
            match still(env, &cand, &st, seed) {
                Some((m, i)) if i.is_none() == was_compile => {
                    (v.message, v.input) = (m, i);
                    v.items = cand;
                    go = tree.simplify();
                }
                _ => go = tree.complicate(),
            }
        }
    }
}
