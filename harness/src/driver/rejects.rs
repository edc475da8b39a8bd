//! C17: definitions without a defined layout must not compile, while the same
//! definition without the offending part does.

use crate::build::{self, die};
use crate::gen::{self, CaseDef, Flavor, Mode, Names};
use crate::literal::absolute;
use crate::{batch, Ctx, Report};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::TestRunner;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::path::Path;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Derive {
    Std140,
    Std430,
    Glsl,
}
use Derive::*;
impl Derive {
    fn path(self) -> &'static str {
        match self {
            Std140 => "::crevice::std140::AsStd140",
            Std430 => "::crevice::std430::AsStd430",
            Glsl => "::crevice::glsl::GlslStruct",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    /// A field of this type, in front of field `pos` of the `at`-th struct.
    Field { class: String, ty: String, at: usize, pos: usize, spelling: u8 },
    /// The last struct becomes another kind of item.
    Item { kind: String },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub derive: Derive,
    pub def: CaseDef,
    pub fault: Fault,
}

/// Field types without an equivalent, by reason.
fn bad_types(d: Derive) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let mut add = |c: &str, t: &str| v.push((c.to_string(), t.to_string()));
    for t in ["i8", "u8", "i16", "u16", "i64", "u64", "i128", "u128", "isize", "usize"] {
        add("integer of another width", t);
        add("wrapped integer", &format!("::core::num::Wrapping<{t}>"));
    }
    for t in ["char", "()", "&'static str", "::std::string::String", "::std::ffi::CString"] {
        add("text or unit", t);
    }
    for t in ["f32", "u32", "::mint::Vector3<f32>", "::mint::Vector4<f32>", "Good"] {
        for w in [
            "&'static @", "*const @", "*mut @", "(@,)", "(@, @)", "::core::option::Option<@>", "::std::boxed::Box<@>", "::std::vec::Vec<@>",
            "::std::rc::Rc<@>", "::std::sync::Arc<@>", "::core::marker::PhantomData<@>", "::core::cell::Cell<@>", "::core::mem::MaybeUninit<@>",
            "::core::mem::ManuallyDrop<@>", "&'static [@]", "fn(@)", "::core::num::Wrapping<@>", "::core::result::Result<@, @>",
        ] {
            add("wrapper", &w.replace('@', t));
        }
    }
    for t in ["::core::num::NonZeroU32", "::core::num::NonZeroI32", "::core::sync::atomic::AtomicU32", "::core::sync::atomic::AtomicI32", "::core::sync::atomic::AtomicBool"] {
        add("wrapped integer", t);
    }
    for s in ["f32", "f64"] {
        for n in 2..=4 {
            add("row-major matrix", &format!("::mint::RowMatrix{n}<{s}>"));
        }
        add("quaternion or angle", &format!("::mint::Quaternion<{s}>"));
        add("quaternion or angle", &format!("::mint::EulerAngles<{s}, ::mint::IntraXYZ>"));
        add("quaternion or angle", &format!("::cgmath::Quaternion<{s}>"));
        add("quaternion or angle", &format!("::cgmath::Deg<{s}>"));
        add("quaternion or angle", &format!("::cgmath::Rad<{s}>"));
        add("quaternion or angle", &format!("::nalgebra::Quaternion<{s}>"));
        add("quaternion or angle", &format!("::nalgebra::UnitQuaternion<{s}>"));
        for t in ["::nalgebra::Matrix5", "::nalgebra::Matrix6", "::nalgebra::Vector5", "::nalgebra::Vector6"] {
            add("too many components", &format!("{t}<{s}>"));
        }
    }
    add("quaternion or angle", "::glam::Quat");
    add("quaternion or angle", "::glam::DQuat");
    for t in ["::glam::Affine2", "::glam::Affine3A", "::glam::DAffine2", "::glam::DAffine3"] {
        add("affine transformation", t);
    }
    for s in ["i32", "u32", "bool", "i64", "u8"] {
        for n in 2..=4 {
            add("matrix without a GLSL type", &format!("::mint::ColumnMatrix{n}<{s}>"));
            add("matrix without a GLSL type", &format!("::nalgebra::Matrix{n}<{s}>"));
            if !["bool"].contains(&s) {
                add("row-major matrix", &format!("::mint::RowMatrix{n}<{s}>"));
            }
        }
    }
    for s in ["i8", "u8", "i16", "u16", "i64", "u64", "usize", "isize", "i128", "u128", "char"] {
        for n in 2..=4 {
            for l in ["mint", "cgmath", "nalgebra"] {
                add("vector of another width", &format!("::{l}::Vector{n}<{s}>"));
                if n < 4 {
                    add("vector of another width", &format!("::{l}::Point{n}<{s}>"));
                }
            }
        }
    }
    if d != Glsl {
        for (t, ..) in ARRAYS {
            for n in 1..=4 {
                add("array", &format!("[{t}; {n}]"));
            }
        }
    }
    for t in ["f32", "::mint::Vector3<f32>"] {
        for w in ["::core::ops::Range<@>", "::std::collections::VecDeque<@>", "::core::cell::RefCell<@>", "::core::cmp::Reverse<@>"] {
            add("wrapper", &w.replace('@', t));
        }
    }
    for t in ["Isometry2", "Isometry3", "Similarity2", "Similarity3", "DualQuaternion"] {
        add("affine transformation", &format!("::nalgebra::{t}<f32>"));
    }
    for t in ["NoDerive", "Vec3", "Mimic", "EnumU32", "Alias64"] {
        add("user type without the derive", t);
    }
    let dims = ["Vec2", "Vec3", "Vec4", "DVec2", "DVec3", "DVec4", "IVec2", "UVec3", "BVec2", "BVec3", "Mat2", "Mat3", "Mat4", "DMat2", "DMat3", "DMat4"];
    match d {
        Std140 => {
            add("only the other layout", "Only430");
            add("only the other layout", "OnlyGlsl");
            add("only the other layout", "Std430Only430");
            for t in dims {
                add("other layout's type", &format!("::crevice::std430::{t}"));
            }
            for t in ["u8", "Only430", "NoDerive", "::core::option::Option<f32>", "::crevice::std430::Vec4"] {
                add("DynamicUniform of an unsupported type", &format!("::crevice::std140::DynamicUniform<{t}>"));
            }
        }
        Std430 => {
            add("only the other layout", "Only140");
            add("only the other layout", "OnlyGlsl");
            add("only the other layout", "Std140Only140");
            for t in dims {
                add("other layout's type", &format!("::crevice::std140::{t}"));
            }
            for t in ["f32", "Good", "::mint::Vector4<f32>", "Only140"] {
                add("DynamicUniform in std430", &format!("::crevice::std140::DynamicUniform<{t}>"));
            }
        }
        Glsl => {
            for t in ["Only140", "Only430", "Std140Only140", "::vs::host::Custom<4, 16>"] {
                add("no GLSL name", t);
            }
        }
    }
    v
}

/// Element types of arrays, with size and alignment in std140 and std430. GLSL does
/// have arrays, so what counts is that none is accepted with another layout than
/// GLSL's.
const ARRAYS: [(&str, [(usize, usize); 2]); 9] = [
    ("f32", [(4, 4), (4, 4)]),
    ("u32", [(4, 4), (4, 4)]),
    ("bool", [(4, 4), (4, 4)]),
    ("f64", [(8, 8), (8, 8)]),
    ("::mint::Vector2<f32>", [(8, 8), (8, 8)]),
    ("::mint::Vector3<f32>", [(12, 16), (12, 16)]),
    ("::mint::Vector3<f64>", [(24, 32), (24, 32)]),
    ("::mint::ColumnMatrix2<f32>", [(32, 16), (16, 8)]),
    ("Good", [(16, 16), (4, 4)]),
];

/// Fails to compile unless the array is accepted with a wrong layout.
fn array_probe(d: Derive, ty: &str) -> Option<String> {
    let (el, n) = ty.strip_prefix('[')?.strip_suffix(']')?.split_once("; ")?;
    let n: usize = n.parse().ok()?;
    let (i, m) = match d {
        Std140 => (0, "std140"),
        Std430 => (1, "std430"),
        Glsl => return None,
    };
    let (size, align) = ARRAYS.iter().find(|a| a.0 == el)?.1[i];
    let align = if i == 0 { vs::model::up(align, 16) } else { align };
    let size = n * vs::model::up(size, align);
    let out = format!("<{ty} as ::crevice::{m}::AsS{}>::Output", &m[1..]);
    Some(format!("const _: () = assert!(::core::mem::size_of::<{out}>() != {size} || <{out} as ::crevice::{m}::S{}>::ALIGNMENT != {align});\n", &m[1..]))
}

const ITEMS: [&str; 15] = [
    "tuple struct", "tuple struct of one", "empty tuple struct", "unit struct", "enum", "repr(u32) enum", "repr(C) enum", "enum with named fields",
    "enum with one variant", "enum with tuple variants", "empty enum", "union", "repr(transparent) tuple struct", "repr(C) tuple struct", "private tuple struct",
];

const SUPPORT: &str = "\
#[derive(::crevice::std140::AsStd140, ::crevice::std430::AsStd430, ::crevice::glsl::GlslStruct)] pub struct Good { pub good: f32 }
#[derive(::crevice::std140::AsStd140)] pub struct Only140 { pub a: f32 }
#[derive(::crevice::std430::AsStd430)] pub struct Only430 { pub a: f32 }
#[derive(::crevice::glsl::GlslStruct)] pub struct OnlyGlsl { pub a: f32 }
#[derive(Clone, Copy)] pub struct NoDerive { pub a: f32 }
#[derive(Clone, Copy)] #[repr(C)] pub struct Vec3 { pub x: f32, pub y: f32, pub z: f32 }
#[derive(Clone, Copy)] #[repr(u32)] pub enum EnumU32 { A, B }
pub type Alias64 = i64;
pub struct Mimic;
impl Mimic {
    pub const ALIGNMENT: usize = 4;
    pub const NAME: &'static str = \"float\";
    pub fn as_std140(&self) -> f32 { 0.0 }
    pub fn as_std430(&self) -> f32 { 0.0 }
    pub fn from_std140(_: f32) -> Mimic { Mimic }
    pub fn from_std430(_: f32) -> Mimic { Mimic }
    pub fn std140_size_static() -> usize { 4 }
    pub fn std430_size_static() -> usize { 4 }
}
";

impl Case {
    /// The module's text; `bad` puts the fault in.
    pub fn render(&self, bad: bool) -> String {
        self.text(bad, true)
    }
    /// The supported sibling, and the faulty definition without its derive:
    /// both must compile for the rejection to say anything.
    fn control(&self) -> String {
        format!("pub mod sibling {{\n{}}}\npub mod bare {{\n{}}}\n", self.text(false, true), self.text(true, false))
    }
    fn text(&self, bad: bool, derive: bool) -> String {
        let c = &self.def;
        let mut o = String::from("#![allow(warnings)]\n");
        let n = c.structs.len();
        let mut text = String::new();
        for (i, s) in c.structs.iter().enumerate() {
            let ty = |t: &gen::FTy| absolute(&c.spell(t)).replace("<crevice", "<::crevice").replace("<mint", "<::mint").replace("<glam", "<::glam").replace("<cgmath", "<::cgmath").replace("<nalgebra", "<::nalgebra").replace("<vs", "<::vs");
            let mut fields: Vec<(String, String)> = s.fields.iter().map(|f| (f.name.clone(), ty(&f.ty))).collect();
            let mut extra = String::new();
            if let Fault::Field { ty, at, pos, spelling, .. } = &self.fault {
                if i == at % n {
                    let t = if bad { ty.clone() } else { "f32".into() };
                    let t = match spelling {
                        1 => {
                            extra += &format!("pub type TheAlias = {t};\n");
                            "TheAlias".into()
                        }
                        2 => {
                            extra += &format!("macro_rules! the_type {{ () => {{ {t} }} }}\n");
                            "the_type!()".into()
                        }
                        // A name that promises another type.
                        3 => {
                            extra += &format!("pub mod promise {{ use super::*; pub type Vec4 = {t}; }}\n");
                            "promise::Vec4".into()
                        }
                        _ => t,
                    };
                    let p = pos % (fields.len() + 1);
                    fields.insert(p, ("offending".into(), t));
                }
            }
            text += &extra;
            let named = |fs: &[(String, String)]| fs.iter().map(|f| format!("{}: {}", f.0, f.1)).collect::<Vec<_>>().join(", ");
            let tuple = |fs: &[(String, String)]| fs.iter().map(|f| f.1.clone()).collect::<Vec<_>>().join(", ");
            let d = if derive { format!("#[derive({})]\n", self.derive.path()) } else { String::new() };
            let item = match &self.fault {
                Fault::Item { kind } if bad && i + 1 == n => {
                    let one: Vec<_> = fields.iter().take(1).cloned().collect();
                    let one = if one.is_empty() { vec![("f0".to_string(), "f32".to_string())] } else { one };
                    let some = if fields.is_empty() { one.clone() } else { fields.clone() };
                    let name = &s.name;
                    match kind.as_str() {
                        "tuple struct" => format!("{d}pub struct {name}({});", tuple(&some)),
                        "tuple struct of one" => format!("{d}pub struct {name}(pub {});", tuple(&one)),
                        "empty tuple struct" => format!("{d}pub struct {name}();"),
                        "unit struct" => format!("{d}pub struct {name};"),
                        "enum" => format!("{d}pub enum {name} {{ A, B, C }}"),
                        "repr(u32) enum" => format!("{d}#[repr(u32)] #[derive(Clone, Copy)] pub enum {name} {{ A = 1, B = 7 }}"),
                        "repr(C) enum" => format!("{d}#[repr(C)] pub enum {name} {{ A, B }}"),
                        "enum with named fields" => format!("{d}pub enum {name} {{ A {{ {} }}, B {{ {} }} }}", named(&some), named(&one)),
                        "enum with one variant" => format!("{d}pub enum {name} {{ A {{ {} }} }}", named(&some)),
                        "enum with tuple variants" => format!("{d}pub enum {name} {{ A({}) }}", tuple(&some)),
                        "empty enum" => format!("{d}pub enum {name} {{}}"),
                        // Union fields must not need dropping, so the whole is Copy.
                        "union" => format!("{d}#[repr(C)] pub union {name} {{ a: f32, b: u32, c: ::mint::Vector3<f32> }}"),
                        "repr(transparent) tuple struct" => format!("#[repr(transparent)] {d}pub struct {name}({});", tuple(&one)),
                        "repr(C) tuple struct" => format!("#[repr(C)] {d}pub struct {name}({});", tuple(&some)),
                        _ => format!("{d}struct {name}({});", tuple(&some)),
                    }
                }
                _ => format!("{d}pub struct {} {{ {} }}", s.name, named(&fields)),
            };
            text += &item;
            text.push('\n');
        }
        if let (Fault::Field { ty, .. }, true) = (&self.fault, bad && derive) {
            text += &array_probe(self.derive, ty).unwrap_or_default();
        }
        if text_uses_support(&text) {
            o += SUPPORT;
        }
        o + &text
    }
    fn class(&self) -> String {
        match &self.fault {
            Fault::Field { class, .. } => class.clone(),
            Fault::Item { kind } => kind.clone(),
        }
    }
}

fn text_uses_support(t: &str) -> bool {
    ["Good", "Only140", "Only430", "OnlyGlsl", "NoDerive", "Vec3", "EnumU32", "Alias64", "Mimic"].iter().any(|n| {
        t.match_indices(n).any(|(i, _)| !t[..i].ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == ':'))
    }) || t.contains("Std140Only140") || t.contains("Std430Only430")
}

fn strategy(d: Derive) -> BoxedStrategy<Case> {
    let f = Flavor {
        modes: vec![if d == Std430 { Mode::Only430 } else { Mode::Only140 }],
        glsl: false,
        names: Names::Plain,
        dynamic: false,
        custom: false,
        hand: false,
        outs: false,
        big: false,
        huge: false,
        allow: |p| p.glsl,
        libs: vec![],
        max_fields: 6,
        max_structs: 3,
    };
    let bad = bad_types(d);
    let mut classes: Vec<String> = bad.iter().map(|b| b.0.clone()).collect();
    classes.sort();
    classes.dedup();
    let field = (prop::sample::select(classes), any::<prop::sample::Index>(), 0usize..3, 0usize..7, 0u8..4).prop_map(move |(class, i, at, pos, spelling)| {
        let of: Vec<&(String, String)> = bad.iter().filter(|b| b.0 == class).collect();
        let ty = i.get(&of).1.clone();
        Fault::Field { class, ty, at, pos, spelling }
    });
    let item = prop::sample::select(ITEMS.to_vec()).prop_map(|k| Fault::Item { kind: k.into() });
    (gen::case(&f), prop_oneof![5 => field, 3 => item]).prop_map(move |(def, fault)| Case { derive: d, def, fault }).boxed()
}

/// Which modules have an error attributed to them; empty if all compile.
fn compile(env: &build::Env, dir: &Path, cases: &[(usize, &Case)], bad: bool) -> Option<build::CompileError> {
    std::fs::create_dir_all(dir).unwrap_or_else(|e| die(e));
    let mut main = String::from("#![allow(warnings)]\n");
    for (i, c) in cases {
        std::fs::write(dir.join(format!("c{i}.rs")), if bad { c.render(true) } else { c.control() }).unwrap_or_else(|e| die(e));
        main += &format!("pub mod c{i};\n");
    }
    std::fs::write(dir.join("main.rs"), main).unwrap_or_else(|e| die(e));
    // Full code generation: some checks only happen when constants are evaluated.
    build::compile(env, &dir.join("main.rs"), &dir.join("lib.rlib"), "2021", &["--crate-type=lib", "--crate-name=generated"]).err().map(|e| e.decided())
}

/// Alone: does the faulty definition compile, and its control too?
fn accepted(env: &build::Env, c: &Case) -> bool {
    compile(env, &batch::scratch_dir(env), &[(0, c)], true).is_none() && compile(env, &batch::scratch_dir(env), &[(0, c)], false).is_none()
}

struct Group {
    cases: Vec<Case>,
}
struct Verdict {
    /// Not rejected.
    accepted: Vec<usize>,
    /// The control does not compile, so a rejection says nothing.
    useless: HashSet<usize>,
}

fn judge(env: &build::Env, g: &Group) -> Verdict {
    let all: Vec<(usize, &Case)> = g.cases.iter().enumerate().collect();
    let mut rejected: HashSet<usize> = HashSet::new();
    // Errors of an early pass hide those of later ones: repeat without the culprits.
    loop {
        let rest: Vec<(usize, &Case)> = all.iter().filter(|c| !rejected.contains(&c.0)).cloned().collect();
        if rest.is_empty() {
            break;
        }
        let Some(e) = compile(env, &batch::scratch_dir(env), &rest, true) else { break };
        let before = rejected.len();
        for (f, _) in &e.at {
            if let Some(i) = f.strip_prefix('c').and_then(|i| i.parse().ok()) {
                rejected.insert(i);
            }
        }
        if rejected.len() == before {
            // Not attributable: one by one.
            for (i, c) in rest {
                if compile(env, &batch::scratch_dir(env), &[(0, c)], true).is_some() {
                    rejected.insert(i);
                }
            }
            break;
        }
    }
    let mut useless = HashSet::new();
    if let Some(e) = compile(env, &batch::scratch_dir(env), &all, false) {
        for (i, c) in &all {
            let named = e.at.iter().any(|a| a.0 == format!("c{i}"));
            if (named || e.at.iter().any(|a| a.0.is_empty())) && compile(env, &batch::scratch_dir(env), &[(0, c)], false).is_some() {
                useless.insert(*i);
            }
        }
    }
    let accepted = (0..g.cases.len()).filter(|i| !rejected.contains(i) && accepted(env, &g.cases[*i])).collect();
    Verdict { accepted, useless }
}

fn describe(c: &Case) -> String {
    format!("{} accepts {}:\n{}", c.derive.path(), match &c.fault {
        Fault::Field { class, ty, .. } => format!("a field of type `{ty}` ({class})"),
        Fault::Item { kind } => format!("this item: {kind}"),
    }, c.render(true).replace(SUPPORT, "").chars().take(1200).collect::<String>())
}

pub fn check(ctx: &Ctx) -> Report {
    let per = 40;
    let rounds = if ctx.thorough { 60 } else { 8 };
    let mut runner = TestRunner::new_with_rng(vs::run::config(1), vs::run::rng(ctx.seed, crate::salt("C17")));
    let mut trees: Vec<Vec<Box<dyn ValueTree<Value = Case>>>> = vec![];
    let mut groups = vec![];
    for d in [Std140, Std430, Glsl] {
        let s = strategy(d);
        for _ in 0..rounds {
            let t: Vec<Box<dyn ValueTree<Value = Case>>> =
                (0..per).map(|_| Box::new(s.new_tree(&mut runner).unwrap_or_else(|e| die(e))) as Box<dyn ValueTree<Value = Case>>).collect();
            groups.push(Group { cases: t.iter().map(|t| t.current()).collect() });
            trees.push(t);
        }
        // Every unsupported type and item kind at least once.
        let plain = CaseDef {
            mode: if d == Std430 { Mode::Only430 } else { Mode::Only140 },
            glsl: false,
            structs: vec![gen::StructDef {
                name: "S0".into(),
                fields: vec![gen::Field { name: "f0".into(), ty: gen::FTy::Prim { sp: "f32".into(), prim: vs::model::Prim::Scalar(vs::model::Kind::F32) } }],
            }],
        };
        let mut fixed: Vec<Case> = bad_types(d)
            .into_iter()
            .enumerate()
            .map(|(i, (class, ty))| Case { derive: d, def: plain.clone(), fault: Fault::Field { class, ty, at: 0, pos: i % 2, spelling: 0 } })
            .collect();
        fixed.extend(ITEMS.iter().map(|k| Case { derive: d, def: plain.clone(), fault: Fault::Item { kind: k.to_string() } }));
        for c in fixed.chunks(60) {
            groups.push(Group { cases: c.to_vec() });
            trees.push(vec![]);
        }
    }
    let res = batch::par(&groups, |_, g| judge(&ctx.env, g));
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut seen = HashSet::new();
    let mut samples = vec![];
    let (mut n, mut useless) = (0u64, 0u64);
    let mut violations: Vec<Case> = vec![];
    for ((g, v), t) in groups.iter().zip(&res).zip(&mut trees) {
        for (i, c) in g.cases.iter().enumerate() {
            if v.useless.contains(&i) {
                useless += 1;
                continue;
            }
            n += 1;
            *classes.entry(format!("{:?}: {}", c.derive, c.class())).or_default() += 1;
            if seen.insert(format!("{:?} {}", c.derive, c.render(true))) && samples.len() < 6 && n % 97 == 5 {
                samples.push(json!({"derive": c.derive.path(), "reason": c.class(), "module": c.render(true).replace(SUPPORT, "")}));
            }
        }
        for i in &v.accepted {
            if v.useless.contains(i) {
                continue;
            }
            let mut c = g.cases[*i].clone();
            if violations.is_empty() && !t.is_empty() {
                let t0 = Instant::now();
                let tree = &mut t[*i];
                let mut go = tree.simplify();
                while go && t0.elapsed() < Duration::from_secs(45) {
                    let cur = tree.current();
                    if accepted(&ctx.env, &cur) {
                        c = cur;
                        go = tree.simplify();
                    } else {
                        go = tree.complicate();
                    }
                }
            }
            violations.push(c);
        }
    }
    if n < useless {
        die(format!("{useless} of the supported siblings do not compile"));
    }
    // Different faults first.
    let mut shown = HashSet::new();
    violations.sort_by_key(|c| (!shown.insert(c.class()), c.render(true).len()));
    let mut out = vec![];
    for (i, c) in violations.into_iter().take(3).enumerate() {
        let dir = ctx.root.join("replays").join(format!("C17-{}-{i}", ctx.seed));
        let _ = std::fs::remove_dir_all(&dir);
        compile(&ctx.env, &dir, &[(0, &c)], true);
        let _ = std::fs::remove_file(dir.join("lib.rlib"));
        let m = describe(&c);
        crate::save_json(&dir, &json!({"property": "C17", "kind": "rejects", "seed": ctx.seed, "message": m, "case": c}));
        out.push((m, dir));
    }
    Report {
        evaluations: n,
        nontrivial: seen.len() as u64,
        rule: "supported random definitions with one fault put in: a field of an unsupported type (plain, behind an alias or a macro, at any position and depth) or another kind of item; all unsupported types and item kinds at least once; non-trivial if the same definition without the fault compiles, distinct by text".into(),
        samples,
        extra: json!({"classes": classes, "discarded_because_the_sibling_does_not_compile": useless, "crates": groups.len() * 2}),
        violations: out,
        known: vec![],
        assumptions: vec!["a definition counts as rejected if rustc reports an error located in it".into()],
    }
}

pub fn replay(env: &build::Env, dir: &Path, f: &serde_json::Value) -> Option<String> {
    let c: Case = serde_json::from_value(f["case"].clone()).unwrap_or_else(|e| die(e));
    let src = dir.join("main.rs");
    let out = batch::scratch_dir(env);
    std::fs::create_dir_all(&out).unwrap_or_else(|e| die(e));
    build::compile(env, &src, &out.join("lib.rlib"), "2021", &["--crate-type=lib", "--crate-name=generated"]).is_ok().then(|| describe(&c))
}
