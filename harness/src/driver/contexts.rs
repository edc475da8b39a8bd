//! C16: generated definitions in generated surroundings. C23: the same for derives
//! that have their debug methods.

use crate::build::{self, die};
use crate::gen::{self, bare, CaseDef, FTy, Flavor, Mode};
use crate::literal;
use crate::simple::Engine;
use crate::{Ctx, Report};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::TestRunner;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::path::Path;
use std::process::Command;
use std::time::Duration;
use vs::model::{self, Std};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Knobs {
    pub edition: u8,
    pub vis: u8,
    pub field_vis: u8,
    pub import: u8,
    pub scope: u8,
    pub prelude: u8,
    pub attrs: u16,
    pub field_attrs: u16,
    pub spelling: u8,
    pub seed: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub def: CaseDef,
    pub k: Knobs,
}

const EDITIONS: [&str; 4] = ["2021", "2018", "2015", "2024"];

fn knobs(edition: u8) -> BoxedStrategy<Knobs> {
    // Each attribute bit is set in a quarter of the cases.
    let bits = |n: usize| {
        prop::collection::vec(prop::bool::weighted(0.22), n)
            .prop_map(|v| v.iter().enumerate().fold(0u16, |a, (i, b)| a | ((*b as u16) << i)))
            .boxed()
    };
    ((0u8..6, 0u8..6, 0u8..6, 0u8..7, 0u8..5), (bits(14), bits(7), 0u8..5, any::<u64>()))
        .prop_map(move |((vis, field_vis, import, scope, prelude), (attrs, field_attrs, spelling, seed))| Knobs {
            edition,
            vis,
            field_vis,
            import,
            scope,
            prelude,
            attrs,
            field_attrs,
            spelling,
            seed,
        })
        .boxed()
}

fn has_dyn(c: &CaseDef) -> bool {
    model::contains(&c.root(), &|t| matches!(t, model::Ty::Dyn(_)))
        || c.structs.iter().any(|s| s.fields.iter().any(|f| matches!(f.ty, FTy::Dyn(_))))
}

impl Case {
    /// The module's text.
    pub fn render(&self, id: usize, metrics: bool) -> String {
        let (c, k) = (&self.def, &self.k);
        let mut head = String::new();
        let mut items = String::new();
        let mut methods: Vec<String> = vec![];
        if k.prelude == 1 {
            head += "#![no_implicit_prelude]\n";
        }
        head += "//! Generated.\n";

        // Names of the derives.
        let mut uses = String::new();
        let mut derives = vec![];
        let want = [
            (c.mode.has(Std::Std140), "std140", "AsStd140"),
            (c.mode.has(Std::Std430), "std430", "AsStd430"),
            (c.glsl, "glsl", "GlslStruct"),
        ];
        let names: HashSet<&str> = c.structs.iter().map(|s| bare(&s.name)).collect();
        for (on, m, t) in want {
            if !on {
                continue;
            }
            // An explicit import must not clash with the user's own names.
            let clash = names.contains(t) || names.contains(m);
            match if clash { 0 } else { k.import } {
                1 | 4 => {
                    uses += &format!("use ::crevice::{m}::{t};\n");
                    derives.push(t.to_string());
                }
                2 => {
                    uses += &format!("use ::crevice::{m}::*;\n");
                    derives.push(t.to_string());
                }
                3 => {
                    uses += &format!("use ::crevice::{m}::{t} as Derive{t};\n");
                    derives.push(format!("Derive{t}"));
                }
                5 => {
                    uses += &format!("use ::crevice::{m};\n");
                    derives.push(format!("{m}::{t}"));
                }
                _ => derives.push(format!("::crevice::{m}::{t}")),
            }
        }
        if k.prelude == 2 {
            for n in ["Option", "Some", "None", "Result", "Ok", "Err", "Vec", "String", "Box", "Clone", "Copy", "Debug", "Default", "Drop", "From", "Into", "Sized", "Send", "Pod", "Zeroable", "Self_"] {
                if !names.contains(n) {
                    items += &format!("#[allow(dead_code)] struct {n};\n");
                }
            }
            for n in ["core", "std", "bytemuck", "internal"] {
                items += &format!("#[allow(dead_code)] mod {n} {{}}\n");
            }
            if !uses.contains("::crevice::std140;\n") {
                items += "#[allow(dead_code)] mod crevice {}\n";
            }
        }
        let prims = PRIMITIVES.iter().any(|n| names.contains(n) || c.structs.iter().any(|s| s.fields.iter().any(|f| bare(&f.name) == *n)));
        let shadow_prims = k.prelude == 3 && !prims;
        if shadow_prims {
            for n in PRIMITIVES {
                items += &format!("#[allow(dead_code, non_camel_case_types)] struct {n};\n");
            }
        }
        if k.prelude == 4 {
            // What local variables of generated code might be called.
            for (i, n) in ["input", "alignment", "starting_offset"].iter().enumerate() {
                let kind = if i % 2 == k.seed as usize % 2 { "static" } else { "const" };
                items += &format!("#[allow(dead_code, non_upper_case_globals)] {kind} {n}: i8 = 7;\n");
            }
            // Values that are called like fields.
            let mut taken: HashSet<String> = ["input", "alignment", "starting_offset", "check", "want", "back", "got", "out", "sum", "std140", "std430", "glsl", "crevice", "AsStd140", "AsStd430", "GlslStruct"].map(|n| n.into()).into();
            for (i, f) in c.structs.iter().flat_map(|s| &s.fields).enumerate() {
                let n = bare(&f.name);
                if n.len() < 3 || names.contains(n) || i as u64 % 3 == k.seed / 2 % 3 || !taken.insert(n.to_string()) {
                    continue;
                }
                items += "#[allow(dead_code, non_upper_case_globals, non_camel_case_types, non_snake_case)] ";
                items += &match (i as u64 + k.seed / 8) % 4 {
                    0 => format!("static {}: i8 = 7;\n", f.name),
                    1 => format!("const {}: i8 = 7;\n", f.name),
                    2 if !PRIMITIVES.contains(&n) => format!("struct {};\n", f.name),
                    _ => format!("fn {}() {{}}\n", f.name),
                };
            }
            // Methods of the user's that are called like crevice's.
            for s in &c.structs {
                let mut ms = String::new();
                for m in ["as_std140", "as_std430", "as_bytes"] {
                    ms += &format!("#[allow(dead_code)] fn {m}(&self) -> i8 {{ 7 }} ");
                }
                for m in ["from_std140", "from_std430", "std140_size_static", "std430_size_static", "zeroed", "new"] {
                    ms += &format!("#[allow(dead_code)] fn {m}() -> i8 {{ 7 }} ");
                }
                methods.push(format!("#[allow(deprecated)]\nimpl {} {{ {ms} }}\n", s.name));
            }
        }
        // Spellings of field types.
        let mut aliases = String::new();
        let mut n_alias = 0;
        let mut spell = |t: &FTy, si: usize, fi: usize| -> String {
            fn plain(c: &CaseDef, t: &FTy) -> String {
                match t {
                    FTy::Prim { sp, .. } => literal::absolute(sp),
                    FTy::Struct(i) => c.structs[*i].name.clone(),
                    FTy::Out(i) => c.out_name(*i),
                    FTy::Dyn(t) => format!("::crevice::std140::DynamicUniform<{}>", plain(c, t)),
                }
            }
            let p = plain(c, t);
            let simple = matches!(t, FTy::Prim { .. });
            if (si + fi) % 2 == 1 {
                return p;
            }
            match k.spelling {
                1 if simple => {
                    n_alias += 1;
                    aliases += &format!("type Alias{n_alias} = {p};\n");
                    format!("Alias{n_alias}")
                }
                2 if simple => {
                    n_alias += 1;
                    aliases += &format!(
                        "/// T\npub trait Tr{n_alias} {{ /// A\n type Assoc; }}\n#[allow(clippy::all)]\nimpl Tr{n_alias} for () {{ type Assoc = {p}; }}\n"
                    );
                    format!("<() as Tr{n_alias}>::Assoc")
                }
                3 if simple => {
                    n_alias += 1;
                    aliases += &format!("macro_rules! ty{n_alias} {{ () => {{ {p} }} }}\n");
                    format!("ty{n_alias}!()")
                }
                4 => match t {
                    FTy::Struct(i) if matches!(k.scope, 0 | 1) => {
                        let m = if k.scope == 1 { "::inner" } else { "" };
                        format!("crate::c{id}{m}::{}", c.structs[*i].name)
                    }
                    _ => p,
                },
                _ => p,
            }
        };
        let within = format!("pub(in crate::c{id}) ");
        let vis = match k.vis {
            0 => "pub ",
            1 => "",
            2 => "pub(crate) ",
            3 => "pub(super) ",
            4 => "pub(self) ",
            _ => &within,
        };
        let in_fn = matches!(k.scope, 2 | 3);
        let vis = if in_fn && k.vis == 3 { "" } else { vis };
        let mut defs = String::new();
        for (si, s) in c.structs.iter().enumerate() {
            let mut a = String::from("/// A struct.\n#[allow(non_snake_case, non_camel_case_types)]\n");
            let on = |b: u16| k.attrs & (1 << b) != 0;
            if on(0) {
                a += "#[deprecated]\n";
            }
            if on(1) {
                a += "#[repr(C)]\n";
            }
            if on(2) {
                a += "#[non_exhaustive]\n";
            }
            if on(3) {
                a += "#[must_use]\n";
            }
            if on(4) {
                a += "#[doc(hidden)]\n";
            }
            if on(5) {
                a += "#[cfg_attr(all(), allow(clippy::all))]\n";
            }
            if on(6) {
                a += "#[doc = \"More.\"]\n";
            }
            if on(7) && !on(1) && k.vis != 9 {
                a += "#[repr(align(64))]\n";
            }
            // Other people's macros.
            let noted = on(12) || k.field_attrs & 64 != 0;
            if noted {
                a += "#[derive(::vs_helper::Note)]\n#[note(level(1), name = \"x\")]\n";
            }
            if on(13) {
                a += ["#[::vs_helper::again]\n", "#[::vs_helper::again(call)]\n", "#[::vs_helper::again(mixed)]\n"][(k.seed % 3) as usize];
            }
            let other = if on(8) && !has_dyn(c) { "#[derive(::core::clone::Clone, ::core::marker::Copy)]\n" } else { "" };
            if on(9) {
                a += other;
            }
            if k.import == 4 || on(10) {
                for d in &derives {
                    a += &format!("#[derive({d})]\n");
                }
            } else {
                a += &format!("#[derive({})]\n", derives.join(", "));
            }
            if !on(9) {
                a += other;
            }
            let mut fields = vec![];
            for (fi, f) in s.fields.iter().enumerate() {
                let mut fa = String::from("/// A field.\n");
                let on = |b: u16| k.field_attrs & (1 << b) != 0 && (fi + si) % 2 == 0;
                if on(0) {
                    fa += "#[deprecated(note = \"old\")]\n";
                }
                if on(1) {
                    fa += "#[allow(unused)]\n";
                }
                if on(2) {
                    fa += "#[cfg(all())]\n";
                }
                if on(3) {
                    fa += "#[doc(hidden)]\n";
                }
                if on(4) {
                    fields.push(format!("/// Gone.\n#[cfg(any())]\ngone{fi}: NoSuchType"));
                }
                if on(5) {
                    fa += "/** More. */\n";
                }
                if on(6) {
                    fa += ["#[note]\n", "#[note = 7]\n", "#[note(skip, type = u8)]\n"][fi % 3];
                }
                let fv = match if k.field_vis == 4 { fi as u8 % 6 } else { k.field_vis } {
                    0 => "pub ",
                    1 => "",
                    2 => "pub(crate) ",
                    3 => "pub(self) ",
                    _ => &within,
                };
                fields.push(format!("{fa}{fv}{}: {}", f.name, spell(&f.ty, si, fi)));
            }
            // Bounds that hold.
            let bounds = if on(11) { "where for<'a> &'a (): ::core::marker::Copy" } else { "" };
            match k.scope {
                4 => {
                    // Everything passes through a macro, fragment by fragment.
                    defs += &format!(
                        "macro_rules! make{si} {{ ($(#[$a:meta])* $v:vis $n:ident {{ $($(#[$fa:meta])* $fv:vis $f:ident : $t:ty),* $(,)? }}) => {{ $(#[$a])* $v struct $n {{ $($(#[$fa])* $fv $f: $t),* }} }} }}\nmake{si}!({a}{vis}{} {{\n{}\n}});\n",
                        s.name,
                        fields.join(",\n")
                    );
                }
                5 => {
                    defs += &format!(
                        "macro_rules! make{si} {{ ($n:ident) => {{ {a}{vis}struct $n {bounds} {{\n{}\n}} }} }}\nmake{si}!({});\n",
                        fields.join(",\n"),
                        s.name
                    );
                }
                6 => {
                    // A macro that repeats one type.
                    defs += &format!(
                        "macro_rules! make{si} {{ ($($t:tt)*) => {{ $($t)* }} }}\nmake{si}! {{ {a}{vis}struct {} {bounds} {{\n{}\n}} }}\n",
                        s.name,
                        fields.join(",\n")
                    );
                }
                _ => defs += &format!("{a}{vis}struct {} {bounds} {{\n{}\n}}\n", s.name, fields.join(",\n")),
            }
        }
        for m in methods {
            defs += &m;
        }
        // The check.
        let mut body = String::new();
        for i in 0..c.structs.len() {
            let t = FTy::Struct(i);
            for std in [Std::Std140, Std::Std430] {
                if c.mode.has(std) {
                    let w = literal::words(c, &t, k.seed ^ i as u64);
                    let g = literal::glsl_name(c, &t);
                    body += &literal::check_block(c, &t, &c.structs[i].name, std, &w, g.as_deref(), literal::More { metrics, ..Default::default() });
                }
            }
        }
        body += "::core::result::Result::Ok(())\n";
        let sig = "/// Checks.\n#[allow(deprecated)]\npub fn check() -> ::core::result::Result<(), &'static str>";
        let dep = if k.attrs & 1 != 0 || k.field_attrs & 1 != 0 { "#[allow(deprecated)]\n" } else { "" };
        let text = match k.scope {
            1 => format!(
                "{head}{dep}/// Inner.\npub mod inner {{\n{uses}{items}{aliases}{}{sig} {{\n{body}}}\n}}\npub use self::inner::check;\n",
                per_struct_allow(&defs, dep)
            ),
            2 => format!("{head}{items}{sig} {{\n{uses}{aliases}{}{body}}}\n", per_struct_allow(&defs, dep)),
            3 => format!(
                "{head}{items}/// Host.\npub struct TheHost;\nimpl TheHost {{\n{sig} {{\n{uses}{aliases}{}{body}}}\n}}\n{sig} {{ TheHost::check() }}\n",
                per_struct_allow(&defs, dep)
            ),
            _ => format!("{head}{uses}{items}{aliases}{}{sig} {{\n{body}}}\n", per_struct_allow(&defs, dep)),
        };
        if shadow_prims {
            absolute_primitives(&text)
        } else {
            text
        }
    }
}

const PRIMITIVES: [&str; 9] = ["f32", "f64", "i32", "u32", "u8", "u64", "usize", "bool", "str"];

/// Compares a report with what the model says: the first numbers called Size and
/// Align, then name, offset and size of each field in order, spelled in any way.
const METRICS: &str = r##"
/// Compares a report of the debug methods.
pub fn metrics(report: &str, size: usize, align: usize, fields: &[(&str, usize, usize)]) -> Option<&'static str> {
    fn number(t: &str, key: &str) -> Option<usize> {
        let i = t.to_lowercase().find(key)? + key.len();
        let d: String = t[i..].chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
        d.parse().ok()
    }
    let (head, rest) = report.split_at(report.find("fields").unwrap_or(report.len()));
    if number(head, "size") != Some(size) {
        return Some("debug_metrics reports a wrong size");
    }
    if number(head, "align") != Some(align) {
        return Some("debug_metrics reports a wrong alignment");
    }
    let parts: Vec<&str> = rest.split("name:").skip(1).collect();
    if parts.len() != fields.len() {
        return Some("debug_metrics reports a wrong number of fields");
    }
    for (p, f) in parts.iter().zip(fields) {
        let name = p.split('"').nth(1).unwrap_or("");
        let after = p.splitn(3, '"').nth(2).unwrap_or("");
        if name.trim_start_matches("r#") != f.0 {
            return Some("debug_metrics reports a wrong field name");
        }
        if number(after, "offset") != Some(f.1) {
            return Some("debug_metrics reports a wrong offset");
        }
        if number(after, "size") != Some(f.2) {
            return Some("debug_metrics reports a wrong size of a field");
        }
    }
    None
}
"##;

/// Spells primitive types so that items of the same name do not get in the way.
fn absolute_primitives(text: &str) -> String {
    let mut out = String::new();
    let mut word = String::new();
    let mut quoted = false;
    let mut prev = ' ';
    for ch in text.chars().chain(['\n']) {
        if ch.is_alphanumeric() || ch == '_' {
            word.push(ch);
            continue;
        }
        // The definitions themselves stay, and so do texts.
        if !quoted && PRIMITIVES.contains(&word.as_str()) && !out.ends_with("struct ") {
            out += "::core::primitive::";
        }
        out += &word;
        word.clear();
        if ch == '"' && prev != '\\' {
            quoted = !quoted;
        }
        out.push(ch);
        prev = ch;
    }
    out
}

/// A struct whose field has a deprecated type needs the user's own permission.
fn per_struct_allow(defs: &str, dep: &str) -> String {
    if dep.is_empty() {
        defs.to_string()
    } else {
        defs.replace("#[allow(non_snake_case, non_camel_case_types)]\n", "#[allow(non_snake_case, non_camel_case_types, deprecated)]\n")
    }
}

pub fn write(dir: &Path, cases: &[(usize, Case)], metrics: bool) {
    std::fs::create_dir_all(dir).unwrap_or_else(|e| die(e));
    let mut main = String::from(
        "//! Generated.\n#![deny(warnings, missing_docs)]\n#![allow(mixed_script_confusables, confusable_idents, uncommon_codepoints)]\n\
         macro_rules! fail { ($m:expr) => { return ::core::result::Result::Err($m) } }\n",
    );
    if metrics {
        main += METRICS;
    }
    if cases.iter().any(|c| EDITIONS[c.1.k.edition as usize] == "2015") {
        for n in ["core", "crevice", "mint", "cgmath", "glam", "nalgebra", "bytemuck", "vs", "vs_helper"] {
            main += &format!("extern crate {n};\n");
        }
    }
    let mut calls = String::new();
    for (i, c) in cases {
        std::fs::write(dir.join(format!("c{i}.rs")), c.render(*i, metrics)).unwrap_or_else(|e| die(e));
        main += &format!("/// C.\npub mod c{i};\n");
        calls += &format!("    if let Err(m) = c{i}::check() {{ println!(\"FAIL {i} {{}}\", m); }}\n");
    }
    main += &format!("#[allow(dead_code)]\nfn main() {{\n{calls}    println!(\"DONE\");\n}}\n");
    std::fs::write(dir.join("main.rs"), main).unwrap_or_else(|e| die(e));
}

pub struct Eng<'a> {
    env: &'a build::Env,
    metrics: bool,
    /// Failures so far: a handful is enough to report.
    found: std::sync::atomic::AtomicUsize,
    /// What fails only in one crate.
    together: std::sync::Mutex<Vec<(String, Vec<(usize, Case)>)>>,
}

impl<'a> Eng<'a> {
    fn enough(&self) -> bool {
        self.found.load(std::sync::atomic::Ordering::SeqCst) >= 3
    }
    fn eval(&self, v: &[(usize, Case)], keep: Option<&Path>) -> Result<BTreeMap<usize, String>, build::CompileError> {
        let env = self.env;
        let dir = keep.map(|p| p.to_path_buf()).unwrap_or_else(|| crate::batch::scratch_dir(env));
        write(&dir, v, self.metrics);
        eval_dir(env, &dir, EDITIONS[v[0].1.k.edition as usize])
    }
}

fn eval_dir(env: &build::Env, dir: &Path, edition: &str) -> Result<BTreeMap<usize, String>, build::CompileError> {
    let src = dir.join("main.rs");
    build::compile(env, &src, &dir.join("lib.rmeta"), edition, &["--crate-type=lib", "--emit=metadata", "--crate-name=generated"])?;
    let bin = dir.join("prog");
    build::compile(env, &src, &bin, edition, &["--crate-name=generated"])?;
    let (code, out, err) = build::run_timeout(Command::new(&bin), Duration::from_secs(120)).unwrap_or_else(|e| die(e));
    let _ = std::fs::remove_file(&bin);
    let mut bad = BTreeMap::new();
    for l in out.lines() {
        if let Some(r) = l.strip_prefix("FAIL ") {
            let (i, m) = r.split_once(' ').unwrap_or((r, ""));
            bad.insert(i.parse().unwrap_or(0), format!("the derived code gives wrong results: {m}"));
        }
    }
    if code != Some(0) || !out.contains("DONE") {
        bad.entry(usize::MAX).or_insert(format!("generated program died: {err}"));
    }
    Ok(bad)
}

impl<'a> Engine for Eng<'a> {
    type V = Case;
    fn many(&self, v: &[(usize, Case)]) -> Vec<Option<String>> {
        if self.enough() {
            return vec![None; v.len()];
        }
        match self.eval(v, None) {
            Ok(bad) if !bad.contains_key(&usize::MAX) => v.iter().map(|(i, _)| bad.get(i).cloned()).collect(),
            Ok(_) => v.iter().map(|(_, c)| self.one(c)).collect(),
            Err(e) => {
                // Only what fails alone counts. Errors stop later compiler
                // passes, so the rest is tried again without the culprits.
                let named: HashSet<&str> = e.at.iter().map(|a| a.0.as_str()).collect();
                let suspects: Vec<usize> = (0..v.len()).filter(|j| named.contains(format!("c{}", v[*j].0).as_str())).collect();
                let suspects = if suspects.is_empty() { (0..v.len()).collect() } else { suspects };
                let mut out: Vec<Option<String>> = vec![None; v.len()];
                let mut any = false;
                for j in suspects {
                    if self.enough() {
                        return out;
                    }
                    out[j] = self.one(&v[j].1);
                    if out[j].is_some() {
                        any = true;
                        self.found.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    }
                }
                if self.enough() {
                    return out;
                }
                if !any && e.gave_up {
                    die(format!("generated contexts: {}", e.text));
                }
                if !any {
                    let fails = |v: &[(usize, Case)]| self.eval(v, None).err().map(|e| e.text.chars().take(2000).collect::<String>());
                    let (m, few) = crate::batch::fewest(v.to_vec(), e.text.chars().take(2000).collect(), &fails);
                    self.found.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let m = format!("{} modules that compile on their own do not compile in one crate: {m}", few.len());
                    self.together.lock().unwrap().push((m, few));
                    return out;
                }
                let rest: Vec<(usize, Case)> = (0..v.len()).filter(|j| out[*j].is_none()).map(|j| v[j].clone()).collect();
                if !rest.is_empty() {
                    let r = self.many(&rest);
                    let mut r = r.into_iter();
                    for o in out.iter_mut().filter(|o| o.is_none()) {
                        *o = r.next().unwrap();
                    }
                }
                out
            }
        }
    }
    fn one(&self, c: &Case) -> Option<String> {
        match self.eval(&[(0, c.clone())], None) {
            Ok(bad) => bad.into_values().next(),
            Err(e) => Some(format!("does not compile under deny(warnings, missing_docs): {}", e.text.chars().take(2000).collect::<String>())),
        }
    }
}

/// Structs side by side that have similar names, some with many fields.
fn relatives(rng: &mut impl Rng, f: &Flavor) -> CaseDef {
    let mut below = |k: usize| (rng.next_u64() % k as u64) as usize;
    let base = ["Light", "A", "S1", "Std", "Point_", "_x", "r#fn", "Vec3", "Pad", "a0b"][below(10)];
    let plain = bare(base).to_string();
    let mut names = vec![base.to_string()];
    while names.len() < 4 {
        let n = match below(7) {
            0 | 1 => format!("{plain}{}", below(30)),
            2 => format!("{plain}_{}", below(12)),
            3 => format!("{plain}{}", ["_", "Pad", "Pad0", "Std140", "s", "x"][below(6)]),
            4 => format!("{}{plain}", ["_", "P", "Std", "As"][below(4)]),
            5 => plain.to_uppercase() + ["", "1"][below(2)],
            _ => plain.to_lowercase() + ["1", "11"][below(2)],
        };
        if !names.contains(&n) && (n != plain) {
            names.push(n);
        }
    }
    let sizes: Vec<usize> = (0..4).map(|_| [1 + below(3), 11 + below(30)][below(2)]).collect();
    let first = gen::wide(rng, f, 12 + sizes[0]);
    let mut def = CaseDef { structs: vec![], ..first.clone() };
    for (i, name) in names.into_iter().enumerate() {
        let mut s = if i == 0 {
            first.structs[0].clone()
        } else {
            // In the layouts of the first.
            gen::wide(rng, &Flavor { modes: vec![def.mode], ..f.clone() }, sizes[i]).structs[0].clone()
        };
        s.name = name;
        def.structs.push(s);
    }
    def
}

pub fn check(ctx: &Ctx) -> Report {
    let flavors = [
        Flavor { big: false, huge: false, hand: false, outs: false, max_structs: 3, ..Flavor::default() },
        Flavor { big: false, huge: false, hand: false, outs: false, max_structs: 3, glsl: true, dynamic: false, custom: false, ..Flavor::default() },
        Flavor { big: false, huge: false, hand: false, outs: false, modes: vec![Mode::Only140], max_structs: 3, ..Flavor::default() },
        Flavor { big: false, huge: false, hand: false, outs: false, max_structs: 1, max_fields: 90, custom: false, dynamic: false, ..Flavor::default() },
    ];
    let metrics = ctx.prop == "C23";
    let env = if metrics { ctx.env.debug_methods() } else { ctx.env.clone() };
    let per = if ctx.thorough { 40 } else { 20 };
    let rounds = if ctx.thorough { 60 } else { 10 };
    let mut runner = TestRunner::new_with_rng(vs::run::config(1), vs::run::rng(ctx.seed, crate::salt(&ctx.prop)));
    let eng = Eng { env: &env, metrics, found: Default::default(), together: Default::default() };
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut seen = HashSet::new();
    let mut n = 0;
    let mut samples = vec![];
    let mut violations = vec![];
    // One crate per edition and shard.
    let mut groups: Vec<Vec<Box<dyn ValueTree<Value = Case>>>> = vec![];
    for r in 0..rounds {
        for e in 0..4u8 {
            let mut g: Vec<Box<dyn ValueTree<Value = Case>>> = vec![];
            for i in 0..per {
                if r == 0 && i == 0 {
                    // Many fields, in no special surroundings.
                    let n = 257 + (runner.rng().next_u64() % 40) as usize;
                    let def = gen::wide(runner.rng(), &flavors[e as usize % 2], n);
                    let s = (Just(def), knobs(e)).prop_map(|(def, k)| Case { def, k: Knobs { attrs: 0, field_attrs: 0, ..k } });
                    g.push(Box::new(s.new_tree(&mut runner).unwrap_or_else(|e| die(e))));
                    continue;
                }
                if i == 1 {
                    let def = relatives(runner.rng(), &flavors[r % 3]);
                    let s = (Just(def), knobs(e)).prop_map(|(def, k)| Case { def, k });
                    g.push(Box::new(s.new_tree(&mut runner).unwrap_or_else(|e| die(e))));
                    continue;
                }
                let f = &flavors[if (i + r) % 10 == 9 { 3 } else { (i + r) % 3 }];
                let s = (gen::case(f), knobs(e)).prop_map(|(mut def, k)| {
                    // User types with no more traits than a layout needs.
                    for (i, f) in def.structs.iter_mut().flat_map(|s| &mut s.fields).enumerate() {
                        if let FTy::Prim { sp, prim: model::Prim::Custom { .. } } = &mut f.ty {
                            if (i as u64 + k.seed) % 2 == 0 {
                                *sp = sp.replace("::Custom<", "::Raw<");
                            }
                        }
                    }
                    Case { def, k }
                });
                g.push(Box::new(s.new_tree(&mut runner).unwrap_or_else(|e| die(e))));
            }
            groups.push(g);
        }
    }
    let groups: Vec<std::sync::Mutex<Option<Vec<Box<dyn ValueTree<Value = Case>>>>>> = groups.into_iter().map(|g| std::sync::Mutex::new(Some(g))).collect();
    // ValueTrees are not Send; evaluate values in parallel, shrink here.
    let vals: Vec<Vec<(usize, Case)>> =
        groups.iter().map(|g| g.lock().unwrap().as_ref().unwrap().iter().enumerate().map(|(i, t)| (i, t.current())).collect()).collect();
    let res = crate::batch::par(&vals, |_, v| eng.many(v));
    for ((g, vs_), r) in groups.iter().zip(&vals).zip(res) {
        let mut trees = g.lock().unwrap().take().unwrap();
        for (i, c) in vs_ {
            n += 1;
            let k = &c.k;
            for (a, b) in [
                ("edition", EDITIONS[k.edition as usize].to_string()),
                ("visibility", k.vis.to_string()),
                ("import style", k.import.to_string()),
                ("scope", k.scope.to_string()),
                ("prelude", k.prelude.to_string()),
                ("type spelling", k.spelling.to_string()),
            ] {
                *classes.entry(format!("{a} {b}")).or_default() += 1;
            }
            // Non-trivial: at least one field, and something unusual around it.
            let unusual = k.scope > 0 || k.prelude > 0 || k.import > 0 || k.attrs | k.field_attrs > 0 || k.vis > 0 || k.spelling > 0;
            let text = c.render(0, metrics);
            if unusual && c.def.structs.iter().any(|s| !s.fields.is_empty()) && seen.insert(text.clone()) && samples.len() < 3 && *i % 7 == 3 {
                samples.push(json!({"edition": EDITIONS[k.edition as usize], "module": text.chars().take(1500).collect::<String>()}));
            }
        }
        let mut first = true;
        for (j, m) in r.into_iter().enumerate() {
            let Some(mut m) = m else { continue };
            let mut c = vs_[j].1.clone();
            if first && violations.is_empty() {
                first = false;
                let t0 = std::time::Instant::now();
                let tree = &mut trees[j];
                let mut go = tree.simplify();
                while go && t0.elapsed() < Duration::from_secs(60) {
                    let cur = tree.current();
                    match eng.one(&cur) {
                        Some(m2) => {
                            (m, c) = (m2, cur);
                            go = tree.simplify();
                        }
                        None => go = tree.complicate(),
                    }
                }
            }
            violations.push((m, vec![(0, c)]));
        }
    }
    violations.extend(eng.together.into_inner().unwrap());
    let mut out = vec![];
    for (i, (m, c)) in violations.into_iter().take(3).enumerate() {
        let dir = ctx.root.join("replays").join(format!("{}-{}-{i}", ctx.prop, ctx.seed));
        let _ = std::fs::remove_dir_all(&dir);
        write(&dir, &c, metrics);
        crate::save_json(&dir, &json!({"property": ctx.prop, "kind": "contexts", "edition": EDITIONS[c[0].1.k.edition as usize], "seed": ctx.seed, "message": m, "cases": c}));
        out.push((m, dir));
    }
    Report {
        evaluations: n,
        nontrivial: seen.len() as u64,
        rule: "random struct definitions (odd and raw identifiers, up to 90 fields, nesting) placed in random surroundings: edition, visibility, import style, scope (module, function, method, macros), preludes that are missing or shadowed, attributes on structs and fields, type spellings; compiled as library and program under deny(warnings, missing_docs) and run (C23: with the derives' debug methods, whose reports are compared with the model); non-trivial if a struct has a field and the surroundings differ from a plain public struct, distinct by text".into(),
        samples,
        extra: json!({"classes": classes, "crates": vals.len()}),
        violations: out,
        known: vec![],
        assumptions: vec!["rustc's own lints decide what a warning is".into()],
    }
}

pub fn replay(env: &build::Env, dir: &Path, f: &serde_json::Value) -> Option<String> {
    let debug;
    let env = if f["property"] == "C23" {
        debug = env.debug_methods();
        &debug
    } else {
        env
    };
    match eval_dir(env, dir, f["edition"].as_str().unwrap_or("2021")) {
        Ok(b) => b.into_values().next(),
        Err(e) => Some(e.text),
    }
}
