//! C03: generated programs under miri, which reports every read of memory that
//! was never initialised.

use crate::batch;
use crate::build::{self, die, Env};
use crate::combos::{render_with, Item};
use crate::gen::{self, CaseDef, Flavor};
use crate::literal::More;
use crate::Ctx;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::TestRunner;
use serde_json::json;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::{Duration, Instant};

pub struct Found {
    pub evaluations: u64,
    pub note: String,
    pub violations: Vec<(String, PathBuf)>,
}

// Stacked borrows are off: nalgebra and other dependencies break those experimental
// rules themselves, and C03 is about the values of bytes.

/// The crates as cargo builds them for miri, and how to name them to it.
pub struct Deps {
    miri: PathBuf,
    sysroot: PathBuf,
    args: Vec<String>,
}

impl Deps {
    fn build(env: &Env) -> Result<Deps, String> {
        Deps::build_for(env, None).map_err(|e| match e {
            Failure::Nothing(m) | Failure::Rejected(m) => m,
        })
    }

    /// Everything for one target; another target gets a standard library of its own.
    pub fn build_for(env: &Env, target: Option<&str>) -> Result<Deps, Failure> {
        let cache = target.map(|t| env.root.join("target/miri-std").join(t));
        let cargo = |args: &[&str]| {
            let mut c = Command::new("cargo");
            c.current_dir(env.root.join("miri")).args(args).env_remove("RUSTFLAGS").env_remove("MIRIFLAGS").env_remove("MIRI_SYSROOT");
            if let (Some(t), Some(dir)) = (target, &cache) {
                c.args(["--target", t]).env("XDG_CACHE_HOME", dir);
            }
            c
        };
        let none = Failure::Nothing;
        let mut c = cargo(&["+nightly", "miri", "run", "--offline", "--locked", "--message-format=json"]);
        c.env("CARGO_TARGET_DIR", env.root.join(format!("target/miri{}", target.map_or(String::new(), |t| format!("-{t}")))));
        let (code, out, err) = build::run_timeout(c, Duration::from_secs(400)).map_err(none)?;
        if code != Some(0) {
            let messages: String = out
                .lines()
                .filter_map(|l| serde_json::from_str::<serde_json::Value>(l).ok())
                .filter(|v| v["reason"] == "compiler-message" && v["target"]["name"].as_str().unwrap_or("").starts_with("crevice"))
                .filter(|v| v["message"]["level"] == "error")
                .map(|v| v["message"]["rendered"].as_str().unwrap_or("").to_string())
                .collect();
            if !messages.is_empty() {
                return Err(Failure::Rejected(messages.chars().take(2500).collect()));
            }
            return Err(Failure::Nothing(err.chars().rev().take(600).collect::<String>().chars().rev().collect()));
        }
        let mut dirs = std::collections::BTreeSet::new();
        let mut args = vec![];
        for l in out.lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            let name = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
            for f in v["filenames"].as_array().into_iter().flatten().filter_map(|f| f.as_str()) {
                let (lib, meta) = (f.ends_with(".rlib"), f.ends_with(".rmeta"));
                if !lib && !meta && !f.ends_with(".so") {
                    continue;
                }
                dirs.extend(Path::new(f).parent().map(|d| format!("dependency={}", d.display())));
                if (lib || meta) && ["crevice", "mint", "cgmath", "glam", "nalgebra", "bytemuck"].contains(&&*name) {
                    args.extend(["--extern".to_string(), format!("{name}={f}")]);
                }
            }
        }
        args.extend(dirs.into_iter().flat_map(|d| ["-L".to_string(), d]));
        let mut c = Command::new("rustc");
        c.args(["+nightly", "--print", "sysroot"]);
        let (_, root, _) = build::run_timeout(c, Duration::from_secs(20)).map_err(none)?;
        let c = cargo(&["+nightly", "miri", "setup", "--print-sysroot"]);
        let (_, sysroot, _) = build::run_timeout(c, Duration::from_secs(300)).map_err(none)?;
        if let Some(t) = target {
            args.extend(["--target".to_string(), t.to_string()]);
        }
        Ok(Deps { miri: Path::new(root.trim()).join("bin/miri"), sysroot: sysroot.trim().into(), args })
    }

    /// The interpreter, ready to be given a program.
    pub fn command(&self, dir: &Path) -> Command {
        let mut c = Command::new(&self.miri);
        c.current_dir(dir).arg("--sysroot").arg(&self.sysroot).args(["--edition", "2021", "--cap-lints=allow", "-Zmiri-disable-stacked-borrows"]).args(&self.args);
        c
    }
}

pub enum Failure {
    /// Miri is not usable here.
    Nothing(String),
    /// The compiler does not accept crevice.
    Rejected(String),
}

fn write(dir: &Path, items: &[(usize, Item)], seed: u64) {
    let src = dir.join("src");
    std::fs::create_dir_all(&src).unwrap_or_else(|e| die(e));
    let mut main = String::from("#![allow(warnings)]\nmacro_rules! fail { ($m:expr) => { return ::core::result::Result::Err($m) } }\n");
    let mut calls = String::new();
    for (i, it) in items {
        let more = More { sizer: true, writer: true, slice: true, big: false, ..More::default() };
        std::fs::write(src.join(format!("c{i}.rs")), render_with(it, seed ^ ((*i as u64) << 20), more)).unwrap_or_else(|e| die(e));
        main += &format!("pub mod c{i};\n");
        // Wrong results are the business of other checks; C03 is about memory.
        calls += &format!("    println!(\"AT {i}\"); let _ = c{i}::check();\n");
    }
    main += &format!("fn main() {{\n{calls}    println!(\"DONE\");\n}}\n");
    std::fs::write(src.join("main.rs"), main).unwrap_or_else(|e| die(e));
}

enum Outcome {
    Fine,
    /// Item and report.
    Undefined(usize, String),
    /// No answer.
    Nothing(String),
}

fn run(deps: &Deps, dir: &Path) -> Outcome {
    let mut c = deps.command(dir);
    c.arg("src/main.rs");
    let Ok((code, out, err)) = build::run_timeout(c, Duration::from_secs(400)) else { return Outcome::Nothing("cannot start".into()) };
    if code == Some(0) && out.contains("DONE") {
        return Outcome::Fine;
    }
    if err.contains("Undefined Behavior") {
        let at = out.lines().filter_map(|l| l.strip_prefix("AT ")).last().and_then(|i| i.parse().ok()).unwrap_or(0);
        let from = err.find("error: Undefined Behavior").unwrap_or(0);
        return Outcome::Undefined(at, err[from..].chars().take(2000).collect());
    }
    Outcome::Nothing(err.chars().rev().take(400).collect::<String>().chars().rev().collect())
}

pub fn check(ctx: &Ctx) -> Found {
    let env = &ctx.env;
    let mut runner = TestRunner::new_with_rng(vs::run::config(1), vs::run::rng(ctx.seed, crate::salt("C03 miri")));
    let f = Flavor { big: false, huge: false, custom: false, max_structs: 3, max_fields: 12, ..Flavor::default() };
    let mut items: Vec<(usize, Item)> = gen::prims()
        .into_iter()
        .map(|p| Item::Prim { sp: p.sp, prim: p.prim, std140: p.std140, std430: p.std430 })
        .enumerate()
        .collect();
    let mut trees: Vec<(usize, Box<dyn ValueTree<Value = CaseDef>>)> = vec![];
    for _ in 0..if ctx.thorough { 200 } else { 24 } {
        let t: Box<dyn ValueTree<Value = CaseDef>> = Box::new(gen::case(&f).new_tree(&mut runner).unwrap_or_else(|e| die(e)));
        items.push((items.len(), Item::Case(t.current())));
        trees.push((items.len() - 1, t));
    }
    let deps = match Deps::build(env) {
        Ok(d) => d,
        Err(m) => return Found { evaluations: 0, note: format!("miri gives no answer here: {m}"), violations: vec![] },
    };
    let shards: Vec<Vec<(usize, Item)>> = (0..8).map(|k| items.iter().skip(k).step_by(8).cloned().collect()).collect();
    let dirs: Vec<PathBuf> = shards.iter().map(|_| batch::scratch_dir(env)).collect();
    let res = batch::par(&(0..shards.len()).collect::<Vec<_>>(), |_, k| {
        write(&dirs[*k], &shards[*k], ctx.seed);
        run(&deps, &dirs[*k])
    });
    let mut out = Found { evaluations: 0, note: String::new(), violations: vec![] };
    let mut bad = vec![];
    for (s, r) in shards.iter().zip(res) {
        match r {
            Outcome::Fine => out.evaluations += s.len() as u64,
            Outcome::Undefined(i, m) => bad.push((i, m)),
            Outcome::Nothing(m) => out.note = format!("some programs gave no answer: {m}"),
        }
    }
    for (k, (i, mut m)) in bad.into_iter().take(3).enumerate() {
        let mut it = items[i].1.clone();
        if let (0, Some((_, tree))) = (k, trees.iter_mut().find(|t| t.0 == i)) {
            let t0 = Instant::now();
            let mut go = tree.simplify();
            while go && t0.elapsed() < Duration::from_secs(60) {
                let cur = Item::Case(tree.current());
                let dir = batch::scratch_dir(env);
                write(&dir, &[(i, cur.clone())], ctx.seed);
                match run(&deps, &dir) {
                    Outcome::Undefined(_, m2) => {
                        (m, it) = (m2, cur);
                        go = tree.simplify();
                    }
                    _ => go = tree.complicate(),
                }
            }
        }
        let dir = ctx.root.join("replays").join(format!("C03-{}-miri{k}", ctx.seed));
        let _ = std::fs::remove_dir_all(&dir);
        write(&dir, &[(i, it.clone())], ctx.seed);
        crate::save_json(&dir, &json!({"property": "C03", "kind": "miri", "seed": ctx.seed, "message": m, "item": it}));
        out.violations.push((m, dir));
    }
    out
}

pub fn replay(env: &Env, dir: &Path) -> Option<String> {
    let deps = Deps::build(env).unwrap_or_else(|e| die(e));
    match run(&deps, dir) {
        Outcome::Fine => None,
        Outcome::Undefined(_, m) => Some(m),
        Outcome::Nothing(m) => die(m),
    }
}
