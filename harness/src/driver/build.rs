//! Compiles generated programs with rustc against the crates that cargo built.

use serde_json::Value;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Env {
    pub root: PathBuf,
    pub externs: BTreeMap<String, PathBuf>,
    pub deps: PathBuf,
    pub scratch: PathBuf,
    /// Optimised programs against optimised crates, without debug assertions.
    pub opt: bool,
}

pub fn die(m: impl std::fmt::Display) -> ! {
    eprintln!("harness: {m}");
    std::process::exit(2)
}

impl Env {
    /// `build_json` is what `cargo build --message-format=json` printed.
    pub fn new(root: &Path, build_json: &Path, scratch: &Path) -> Env {
        let text = std::fs::read_to_string(build_json).unwrap_or_else(|e| die(format!("{}: {e}", build_json.display())));
        Env::from_json(root, &text, scratch, &["vs", "crevice", "mint", "cgmath", "glam", "nalgebra", "bytemuck", "vs_helper"])
    }

    pub fn from_json(root: &Path, text: &str, scratch: &Path, names: &[&str]) -> Env {
        let mut externs = BTreeMap::new();
        for l in text.lines() {
            let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
            if v["reason"] != "compiler-artifact" {
                continue;
            }
            let name = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
            for f in v["filenames"].as_array().into_iter().flatten() {
                let f = f.as_str().unwrap_or("");
                if (f.ends_with(".rlib") || f.ends_with(".so")) && names.contains(&&*name) {
                    externs.insert(name.clone(), PathBuf::from(f));
                }
            }
        }
        for n in names {
            if !externs.contains_key(*n) {
                die(format!("cargo built no rlib for {n}"));
            }
        }
        let deps = {
            let p = externs["mint"].parent().unwrap().to_path_buf();
            if p.ends_with("deps") { p } else { p.join("deps") }
        };
        std::fs::create_dir_all(scratch).unwrap_or_else(|e| die(e));
        Env { root: root.into(), externs, deps, scratch: scratch.into(), opt: false }
    }

    /// The same crates, optimised.
    pub fn optimised(&self) -> Env {
        let mut c = Command::new("cargo");
        c.current_dir(self.root.join("harness"))
            .args(["build", "--release", "--lib", "--offline", "--locked", "--message-format=json"])
            .env("CARGO_TARGET_DIR", self.root.join("target"))
            .env_remove("RUSTFLAGS");
        let (code, out, err) = run_timeout(c, Duration::from_secs(600)).unwrap_or_else(|e| die(e));
        if code != Some(0) {
            die(format!("the optimised build failed: {err}"));
        }
        let names: Vec<&str> = self.externs.keys().map(|k| k.as_str()).collect();
        Env { opt: true, ..Env::from_json(&self.root, &out, &self.scratch, &names) }
    }

    /// The same crates, with derives that have their debug methods.
    pub fn debug_methods(&self) -> Env {
        let mut c = Command::new("cargo");
        c.current_dir(self.root.join("harness"))
            .args(["build", "--lib", "--offline", "--locked", "--message-format=json", "--features", "debug-methods"])
            .env("CARGO_TARGET_DIR", self.root.join("target/metrics"))
            .env_remove("RUSTFLAGS");
        let (code, out, err) = run_timeout(c, Duration::from_secs(600)).unwrap_or_else(|e| die(e));
        if code != Some(0) {
            die(format!("the build with debug methods failed: {err}"));
        }
        let names: Vec<&str> = self.externs.keys().map(|k| k.as_str()).collect();
        Env::from_json(&self.root, &out, &self.scratch, &names)
    }

    pub fn rustc(&self, edition: &str) -> Command {
        let mut c = Command::new("rustc");
        c.arg("--edition").arg(edition).args(["-Cdebuginfo=0", "--error-format=json", "-Ccodegen-units=4", "--cap-lints=forbid"]);
        c.args(if self.opt {
            ["-Copt-level=2", "-Coverflow-checks=off", "-Cdebug-assertions=off"]
        } else {
            ["-Copt-level=0", "-Coverflow-checks=on", "-Cdebug-assertions=on"]
        });
        c.arg("-L").arg(format!("dependency={}", self.deps.display()));
        for (n, p) in &self.externs {
            c.arg("--extern").arg(format!("{n}={}", p.display()));
        }
        c
    }
}

#[derive(Clone, Debug)]
pub struct CompileError {
    /// (file stem of the primary span or of the expansion site, rendered message)
    pub at: Vec<(String, String)>,
    pub text: String,
    /// The compiler crashed or did not finish: means something only if it does
    /// so again and again, for one definition alone.
    pub gave_up: bool,
}

pub fn run_timeout(mut c: Command, limit: Duration) -> Result<(Option<i32>, String, String), String> {
    use std::io::Read;
    use std::os::unix::process::ExitStatusExt;
    use std::process::Stdio;
    let mut child = c.stdout(Stdio::piped()).stderr(Stdio::piped()).stdin(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let a = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        v
    });
    let b = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        v
    });
    let t = Instant::now();
    let mut timed_out = false;
    let st = loop {
        if let Some(s) = child.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        if t.elapsed() > limit {
            timed_out = true;
            let _ = child.kill();
            break child.wait().map_err(|e| e.to_string())?;
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let out = String::from_utf8_lossy(&a.join().unwrap()).into_owned();
    let mut err = String::from_utf8_lossy(&b.join().unwrap()).into_owned();
    if timed_out {
        err += "\n(timed out)";
        return Ok((None, out, err));
    }
    if let Some(s) = st.signal() {
        err += &format!("\n(killed by signal {s})");
    }
    Ok((st.code(), out, err))
}

impl CompileError {
    /// For where a compiler that gives up is no answer.
    pub fn decided(self) -> Self {
        if self.gave_up {
            die(self.text);
        }
        self
    }
}

/// Compiles `src` (a main.rs) to `out`.
pub fn compile(env: &Env, src: &Path, out: &Path, edition: &str, extra: &[&str]) -> Result<(), CompileError> {
    let mut c = env.rustc(edition);
    c.args(extra).arg(src).arg("-o").arg(out);
    // Usually a few seconds, for a module, and half a minute for a program.
    let modules = std::fs::read_to_string(src).map_or(0, |t| t.lines().filter(|l| l.contains("mod c")).count());
    let limit = Duration::from_secs(if modules <= 1 { 100 } else { 240 });
    let (code, _, err) = run_timeout(c, limit).unwrap_or_else(|e| die(e));
    match code {
        Some(0) => Ok(()),
        Some(1) => Err(parse_errors(&err)),
        _ => Err(CompileError {
            at: vec![],
            text: format!("the compiler crashes or does not finish in {} s: {}", limit.as_secs(), err.chars().take(1000).collect::<String>()),
            gave_up: true,
        }),
    }
}

fn site(span: &Value) -> String {
    // Derive errors point into the derive's expansion; follow it outwards to a file of ours.
    let mut s = span;
    loop {
        let f = s["file_name"].as_str().unwrap_or("");
        if Path::new(f).file_name().map_or(false, |n| {
            let n = n.to_string_lossy();
            n.starts_with('c') && n.ends_with(".rs") && n[1..n.len() - 3].chars().all(|c| c.is_ascii_digit())
        }) {
            return Path::new(f).file_stem().unwrap().to_string_lossy().into_owned();
        }
        if s["expansion"].is_null() {
            return String::new();
        }
        s = &s["expansion"]["span"];
    }
}

pub fn parse_errors(json: &str) -> CompileError {
    let mut at = vec![];
    let mut text = String::new();
    for l in json.lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        if v["level"] != "error" {
            continue;
        }
        let r = v["rendered"].as_str().unwrap_or("").to_string();
        text += &r;
        let mut found = String::new();
        let mut spans: Vec<&Value> = v["spans"].as_array().into_iter().flatten().collect();
        for c in v["children"].as_array().into_iter().flatten() {
            spans.extend(c["spans"].as_array().into_iter().flatten());
        }
        for s in spans {
            let f = site(s);
            if !f.is_empty() {
                found = f;
                break;
            }
        }
        at.push((found, r));
    }
    if text.is_empty() {
        text = json.chars().take(4000).collect();
    }
    CompileError { at, text, gave_up: false }
}
