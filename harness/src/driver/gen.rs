//! Generated struct definitions.

use proptest::prelude::*;
use proptest::strategy::ValueTree;
use serde::{Deserialize, Serialize};
use vs::model::{Kind, Prim, Std, Ty};

/// One Rust spelling of a supported type.
#[derive(Clone, Debug)]
pub struct PrimTy {
    pub sp: String,
    pub prim: Prim,
    pub std140: bool,
    pub std430: bool,
    pub glsl: bool,
}

impl PrimTy {
    pub fn lib(&self) -> &str {
        self.sp.split("::").next().unwrap()
    }
}

/// Every supported type, by every name a user can write.
pub fn prims() -> Vec<PrimTy> {
    use Kind::*;
    let mut v = vec![];
    let mut add = |sp: String, prim, a, b, glsl| v.push(PrimTy { sp, prim, std140: a, std430: b, glsl });
    let ks = [(F32, "f32"), (F64, "f64"), (I32, "i32"), (U32, "u32"), (Bool, "bool")];
    for (k, n) in ks {
        add(n.to_string(), Prim::Scalar(k), true, true, true);
    }
    for lib in ["mint", "cgmath", "nalgebra"] {
        for (k, n) in ks {
            for d in 2..=4u8 {
                add(format!("{lib}::Vector{d}<{n}>"), Prim::Vec(k, d), true, true, true);
                if d < 4 {
                    add(format!("{lib}::Point{d}<{n}>"), Prim::Vec(k, d), true, true, true);
                }
            }
        }
        for (k, n) in &ks[..2] {
            for d in 2..=4u8 {
                let m = if lib == "mint" { "ColumnMatrix" } else { "Matrix" };
                add(format!("{lib}::{m}{d}<{n}>"), Prim::Mat(*k, d), true, true, true);
            }
        }
    }
    for (k, p) in [(F32, ""), (F64, "D"), (I32, "I"), (U32, "U")] {
        for d in 2..=4u8 {
            add(format!("glam::{p}Vec{d}"), Prim::Vec(k, d), true, true, true);
        }
    }
    for (k, p) in [(F32, ""), (F64, "D")] {
        for d in 2..=4u8 {
            add(format!("glam::{p}Mat{d}"), Prim::Mat(k, d), true, true, true);
        }
    }
    for (m, a, b) in [("std140", true, false), ("std430", false, true)] {
        for (k, p) in [(F32, ""), (F64, "D"), (I32, "I"), (U32, "U"), (Bool, "B")] {
            for d in 2..=4u8 {
                add(format!("crevice::{m}::{p}Vec{d}"), Prim::Vec(k, d), a, b, true);
            }
        }
        for (k, p) in [(F32, ""), (F64, "D")] {
            for d in 2..=4u8 {
                add(format!("crevice::{m}::{p}Mat{d}"), Prim::Mat(k, d), a, b, true);
            }
        }
    }
    add("crevice::std140::Bool".into(), Prim::Scalar(Bool), true, true, true);
    v
}

/// User types that implement the layout traits by hand.
pub fn customs() -> Vec<PrimTy> {
    [(1, 4), (1, 16), (2, 4), (3, 8), (5, 16), (7, 4), (6, 64), (9, 32), (4, 128), (3, 512), (64, 256), (1000, 16), (5000, 4), (2, 4096)]
        .iter()
        .map(|&(w, a)| PrimTy {
            sp: format!("vs::host::Custom<{w}, {a}>"),
            prim: Prim::Custom { words: w, align: a },
            std140: true,
            std430: true,
            glsl: false,
        })
        .collect()
}

/// User types that convert to types of crevice by hand.
pub fn hand() -> Vec<PrimTy> {
    use Kind::*;
    [
        ("F32", Prim::Scalar(F32)),
        ("Bool", Prim::Scalar(Bool)),
        ("Vec3", Prim::Vec(F32, 3)),
        ("BVec2", Prim::Vec(Bool, 2)),
        ("DVec3", Prim::Vec(F64, 3)),
        ("Mat2", Prim::Mat(F32, 2)),
        ("Mat3", Prim::Mat(F32, 3)),
    ]
    .iter()
    .map(|(n, p)| PrimTy { sp: format!("vs::host::Hand{n}"), prim: *p, std140: true, std430: true, glsl: false })
    .collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Mode {
    Both,
    Only140,
    Only430,
}
impl Mode {
    pub fn has(self, s: Std) -> bool {
        match self {
            Mode::Both => true,
            Mode::Only140 => s == Std::Std140,
            Mode::Only430 => s == Std::Std430,
        }
    }
    fn ok(self, p: &PrimTy) -> bool {
        (!self.has(Std::Std140) || p.std140) && (!self.has(Std::Std430) || p.std430)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FTy {
    Prim { sp: String, prim: Prim },
    Struct(usize),
    Dyn(Box<FTy>),
    /// What the derive generated for a struct. Only in definitions with one layout.
    Out(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Field {
    /// As written in Rust, e.g. `r#type`.
    pub name: String,
    pub ty: FTy,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StructDef {
    pub name: String,
    pub fields: Vec<Field>,
}
/// Struct definitions, each using only earlier ones. The last is the root.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CaseDef {
    pub mode: Mode,
    pub glsl: bool,
    pub structs: Vec<StructDef>,
}

pub fn bare(n: &str) -> &str {
    n.strip_prefix("r#").unwrap_or(n)
}

impl CaseDef {
    pub fn ty(&self, t: &FTy) -> Ty {
        match t {
            FTy::Prim { prim, .. } => Ty::Prim(*prim),
            FTy::Struct(i) | FTy::Out(i) => self.schema(*i),
            FTy::Dyn(t) => Ty::Dyn(Box::new(self.ty(t))),
        }
    }
    pub fn schema(&self, i: usize) -> Ty {
        let s = &self.structs[i];
        Ty::Struct {
            name: bare(&s.name).into(),
            fields: s.fields.iter().map(|f| (bare(&f.name).to_string(), self.ty(&f.ty))).collect(),
        }
    }
    pub fn root(&self) -> Ty {
        self.schema(self.structs.len() - 1)
    }
    pub fn spell(&self, t: &FTy) -> String {
        match t {
            FTy::Prim { sp, .. } => sp.clone(),
            FTy::Struct(i) => self.structs[*i].name.clone(),
            FTy::Out(i) => self.out_name(*i),
            FTy::Dyn(t) => format!("crevice::std140::DynamicUniform<{}>", self.spell(t)),
        }
    }
    /// The only layout.
    pub fn only(&self) -> Std {
        if self.mode == Mode::Only430 {
            Std::Std430
        } else {
            Std::Std140
        }
    }
    /// The type the derive generates.
    pub fn out_name(&self, i: usize) -> String {
        let m = if self.only() == Std::Std430 { "430" } else { "140" };
        format!("<{} as ::crevice::std{m}::AsStd{m}>::Output", self.structs[i].name)
    }
    /// The same definitions with every type spelled with mint.
    pub fn twin(&self) -> CaseDef {
        fn go(t: &FTy) -> FTy {
            match t {
                FTy::Prim { prim, .. } => FTy::Prim { sp: mint_spelling(*prim), prim: *prim },
                FTy::Struct(i) => FTy::Struct(*i),
                FTy::Out(i) => FTy::Out(*i),
                FTy::Dyn(t) => FTy::Dyn(Box::new(go(t))),
            }
        }
        let mut c = self.clone();
        for s in &mut c.structs {
            for f in &mut s.fields {
                f.ty = go(&f.ty);
            }
        }
        c
    }
    pub fn derives(&self) -> String {
        let mut d = vec![];
        if self.mode.has(Std::Std140) {
            d.push("crevice::std140::AsStd140");
        }
        if self.mode.has(Std::Std430) {
            d.push("crevice::std430::AsStd430");
        }
        if self.glsl {
            d.push("crevice::glsl::GlslStruct");
        }
        d.join(", ")
    }
    /// The structs' source with their `Host` implementations.
    pub fn render_defs(&self) -> String {
        let mut o = String::new();
        for (i, s) in self.structs.iter().enumerate() {
            o += &format!("#[derive({})]\n#[allow(non_snake_case)]\npub struct {} {{\n", self.derives(), s.name);
            for f in &s.fields {
                o += &format!("    pub {}: {},\n", f.name, self.spell(&f.ty));
            }
            o += "}\n";
            o += &format!("vs::host!({} {{\n", s.name);
            for f in &s.fields {
                o += &format!("    {} as {:?}: {},\n", f.name, bare(&f.name), self.spell(&f.ty));
            }
            o += "});\n";
            if self.mode != Mode::Both {
                let m = if self.only() == Std::Std430 { "std430" } else { "std140" };
                o += &format!(
                    "vs::host_out!({}, {}, crevice::{m}::As{}, as_{m}, from_{m});\n",
                    s.name,
                    self.out_name(i),
                    format!("S{}", &m[1..]),
                );
            }
        }
        o
    }
}

pub fn mint_spelling(p: Prim) -> String {
    let k = |k: Kind| match k {
        Kind::F32 => "f32",
        Kind::F64 => "f64",
        Kind::I32 => "i32",
        Kind::U32 => "u32",
        Kind::Bool => "bool",
    };
    match p {
        Prim::Scalar(x) => k(x).into(),
        Prim::Vec(x, n) => format!("mint::Vector{n}<{}>", k(x)),
        Prim::Mat(x, n) => format!("mint::ColumnMatrix{n}<{}>", k(x)),
        Prim::Custom { words, align } => format!("vs::host::Custom<{words}, {align}>"),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Names {
    /// f0, f1, ...
    Plain,
    /// Anything Rust accepts.
    Odd,
    /// Names that are also GLSL identifiers and not reserved there.
    Glsl,
}

#[derive(Clone, Debug)]
pub struct Flavor {
    pub modes: Vec<Mode>,
    pub glsl: bool,
    pub names: Names,
    pub dynamic: bool,
    pub custom: bool,
    /// Host types with conversions of their own, where `custom` is set.
    pub hand: bool,
    /// Fields of the types that derives generated.
    pub outs: bool,
    /// Custom types with many components too.
    pub big: bool,
    /// Hundreds of fields and more than 64 KiB among the shapes.
    pub huge: bool,
    /// Types that fields may have.
    pub allow: fn(&PrimTy) -> bool,
    /// Libraries whose types fields may have; all if empty.
    pub libs: Vec<String>,
    pub max_fields: usize,
    pub max_structs: usize,
}
impl Default for Flavor {
    fn default() -> Self {
        Flavor {
            modes: vec![Mode::Both, Mode::Both, Mode::Only140, Mode::Only430],
            glsl: false,
            names: Names::Odd,
            dynamic: true,
            custom: true,
            hand: true,
            outs: true,
            big: true,
            huge: true,
            allow: |_| true,
            libs: vec![],
            max_fields: 32,
            max_structs: 4,
        }
    }
}

impl Flavor {
    pub fn lib_ok(&self, p: &PrimTy) -> bool {
        self.libs.is_empty() || !p.sp.contains("::") || self.libs.iter().any(|l| l == p.lib())
    }
}

const ODD_FIELDS: &[&str] = &[
    "r#type", "r#match", "r#fn", "r#struct", "r#impl", "r#async", "r#mod", "r#use", "r#loop", "r#dyn", "r#where",
    "r#_pad0", "r#_pad1", "r#_pad2", "r#__pad0", "r#size", "r#x",
    "_pad0", "_pad1", "_pad2", "__pad0", "___pad1", "_pad", "pad", "pad_0", "_pad_x", "_0", "_", "__", "x", "y", "z", "w",
    "value", "input", "output", "writer", "offset", "alignment", "starting_offset", "size", "len", "data", "field", "fields",
    "std140", "std430", "as_std140", "as_std430", "from_std140", "from_std430", "as_bytes", "crevice", "core", "bytemuck",
    "mint", "zeroed", "output_", "name", "ty", "t", "a", "b", "c", "r", "g", "color", "position", "camelCase",
    "UPPER", "T", "S", "Self_", "self_", "fooBar2", "ünïcödé", "日本", "x1", "very_long_field_name_that_goes_on_and_on_for_a_while_0123456789",
];
const GLSL_FIELDS: &[&str] = &[
    "position", "color", "direction", "intensity", "radius", "transform", "view_proj", "normal", "offset", "count", "x", "y",
    "r#type", "r#impl", "r#mod", "r#fn", "albedo", "roughness", "camelCase", "UPPER", "a1", "time", "world_from_model", "_pad0", "pad",
];
const ODD_STRUCTS: &[&str] = &[
    "Material", "Light", "Point", "Vec3x", "Mat4x", "Std140", "Std430", "AsStd140", "Output", "Self_", "T", "A", "Crevice", "Glsl",
    "Camera", "r#Foo", "Zeroable", "Pod", "Writer", "Sizer", "Bool", "String", "Option", "Box", "X1", "Ünï", "Vec", "Uniforms",
];
const GLSL_STRUCTS: &[&str] = &["Material", "Light", "Camera", "Particle", "Node", "Uniforms", "r#Foo", "Item", "Transform"];

/// Words that are not identifiers in Rust.
const RUST_WORDS: &str = " as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref \
return self static struct super trait true type unsafe use where while async await dyn abstract become box do final gen macro \
override priv try typeof unsized virtual yield union macro_rules raw safe auto Self ";
/// Words that are not identifiers in GLSL (or that naga reserves).
const GLSL_WORDS: &str = " const uniform buffer shared attribute varying coherent volatile restrict readonly writeonly atomic_uint layout \
centroid flat smooth noperspective patch sample invariant precise break continue do for while switch case default if else subroutine \
in out inout int void bool true false float double discard return uint lowp mediump highp precision struct common partition active \
asm class union enum typedef template this resource goto inline noinline public static extern external interface long short half \
fixed unsigned superp input output filter sizeof cast namespace using texture sampler image main packed row_major hvec2 hvec3 hvec4 \
fvec2 fvec3 fvec4 ";

fn is_glsl_word(w: &str) -> bool {
    GLSL_WORDS.contains(&format!(" {w} "))
        || w.starts_with("gl_")
        || ["mat", "dmat", "vec", "dvec", "ivec", "uvec", "bvec", "sampler", "isampler", "usampler", "image", "iimage", "uimage", "texture", "itexture", "utexture", "atomic", "subpass", "isubpass", "usubpass"]
            .iter()
            .any(|p| w.strip_prefix(p).is_some_and(|r| !r.starts_with('_') && r.chars().any(|c| c.is_ascii_digit() || c.is_ascii_uppercase())))
}

fn is_keyword(w: &str) -> bool {
    RUST_WORDS.contains(&format!(" {w} ")) || is_glsl_word(w)
}

/// An identifier made up at random: words in one of the usual styles, or letters.
fn identifier(seed: u64, ty: bool) -> String {
    let mut s = seed ^ 0x9e37_79b9_7f4a_7c15;
    let mut below = |n: usize| {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((s >> 33) % n as u64) as usize
    };
    const WORDS: &[&str] = &[
        "light", "pos", "a", "x", "uv", "m", "world", "to", "n", "view", "coord", "dt", "mat", "vec", "length", "distance", "mix", "step",
        "sign", "fract", "min", "max", "dot", "normal", "cross", "reflect", "size", "len", "pad", "inner", "value", "index", "id", "std",
        "glsl", "struct", "type", "padding", "f32", "u32", "align", "e", "E", "l", "O", "rgba", "shadow", "0", "1", "2d", "16", "x0ff", "1e5",
    ];
    let mut out = String::new();
    if below(8) == 0 {
        out.push('_');
    }
    if below(5) < 3 {
        let camel = below(2) == 0;
        for i in 0..1 + below(4) {
            let w = WORDS[below(WORDS.len())];
            if camel && i > 0 {
                out.push_str(&w[..1].to_uppercase());
                out.push_str(&w[1..]);
            } else {
                if i > 0 {
                    out.push('_');
                }
                out.push_str(w);
            }
        }
    } else {
        let len = [1, 2, 3 + below(8), 10 + below(30), 60 + below(200)][[0, 1, 2, 2, 2, 3, 3, 4][below(8)]];
        for _ in 0..len {
            let c = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"[below(63)] as char;
            if c != '_' || !out.ends_with('_') {
                out.push(c);
            }
        }
    }
    if below(8) == 0 && !out.ends_with('_') {
        out.push('_');
    }
    if ty {
        let t = out.trim_start_matches('_');
        out = if t.is_empty() { "Q".into() } else { t[..1].to_uppercase() + &t[1..] };
    }
    if out.starts_with(|c: char| c.is_ascii_digit()) {
        out.insert(0, if ty { 'Q' } else { 'q' });
    }
    if out.chars().all(|c| c == '_') || is_keyword(&out) {
        out.insert(0, if ty { 'Q' } else { 'q' });
    }
    // `f7` and `S3` are what the seventh field and the third struct may be called.
    let plain = |c: char| out.strip_prefix(c).is_some_and(|r| !r.is_empty() && r.bytes().all(|b| b.is_ascii_digit()));
    if plain('f') || plain('S') {
        out.insert(0, if ty { 'Q' } else { 'q' });
    }
    // A raw identifier need not be a keyword.
    if below(10) == 0 {
        out.insert_str(0, "r#");
    }
    out
}

#[derive(Clone, Debug)]
struct RawField {
    /// 0 = prim, 1 = struct, 2 = custom, 3 = dynamic prim, 4 = dynamic struct
    what: u8,
    class: prop::sample::Index,
    sp: prop::sample::Index,
    target: prop::sample::Index,
    name: Option<prop::sample::Index>,
}
fn raw_field(f: &Flavor) -> BoxedStrategy<RawField> {
    let what = prop_oneof![
        14 => Just(0u8),
        if f.max_structs > 1 { 5 } else { 1 } => Just(1u8),
        if f.custom { 2 } else { 1 } => Just(if f.custom { 2u8 } else { 0 }),
        1 => Just(if f.dynamic { 3u8 } else { 0 }),
        1 => Just(if f.dynamic { 4u8 } else { 0 }),
        1 => Just(if f.outs && !f.glsl && f.max_structs > 1 { 5u8 } else { 0 }),
        1 => Just(if f.hand && f.custom { 6u8 } else { 0 }),
    ];
    let name = if f.names == Names::Plain {
        Just(None).boxed()
    } else {
        prop::option::weighted(0.35, any::<prop::sample::Index>()).boxed()
    };
    (what, any::<prop::sample::Index>(), any::<prop::sample::Index>(), any::<prop::sample::Index>(), name)
        .prop_map(|(what, class, sp, target, name)| RawField { what, class, sp, target, name })
        .boxed()
}

/// Struct definitions.
pub fn case(f: &Flavor) -> BoxedStrategy<CaseDef> {
    let n = f.max_fields;
    let fields = prop_oneof![
        1 => prop::collection::vec(raw_field(f), 0..=1),
        12 => prop::collection::vec(raw_field(f), 1..=6.min(n)),
        6 => prop::collection::vec(raw_field(f), 4.min(n)..=14.min(n)),
        1 => prop::collection::vec(raw_field(f), 14.min(n)..=n),
    ];
    let structs = prop::collection::vec((fields, prop::option::weighted(0.3, any::<prop::sample::Index>())), 1..=f.max_structs);
    let f = f.clone();
    (prop::sample::select(f.modes.clone()), structs)
        .prop_map(move |(mode, raw)| resolve(&f, mode, raw))
        .boxed()
}

type RawStruct = (Vec<RawField>, Option<prop::sample::Index>);

fn resolve(f: &Flavor, mode: Mode, raw: Vec<RawStruct>) -> CaseDef {
    let all: Vec<PrimTy> = prims().into_iter().filter(|p| mode.ok(p) && (f.allow)(p) && (!f.glsl || p.glsl) && f.lib_ok(p)).collect();
    let mut classes: Vec<Prim> = all.iter().map(|p| p.prim).collect();
    classes.sort();
    classes.dedup();
    let customs: Vec<PrimTy> =
        customs().into_iter().filter(|p| f.big || matches!(p.prim, Prim::Custom { words, .. } if words <= 64)).collect();
    let mut out = CaseDef { mode, glsl: f.glsl, structs: vec![] };
    let mut weights: Vec<usize> = vec![];
    for (si, (fields, sname)) in raw.into_iter().enumerate() {
        let pool = if f.names == Names::Glsl { GLSL_STRUCTS } else { ODD_STRUCTS };
        let mut name = match sname {
            Some(i) if f.names != Names::Plain && fields.len() % 2 == 0 => i.get(pool).to_string(),
            Some(i) if f.names != Names::Plain => identifier(i.index(usize::MAX) as u64, true),
            _ => format!("S{si}"),
        };
        // The derive reserves Std140X and Std430X.
        if (f.glsl && (!name.is_ascii() || is_glsl_word(bare(&name)))) || out.structs.iter().any(|s| bare(&s.name) == bare(&name)) {
            name = format!("S{si}");
        }
        let mut def = StructDef { name, fields: vec![] };
        let mut weight = 0;
        for (fi, r) in fields.into_iter().enumerate() {
            let prim = |r: &RawField| {
                let c = r.class.get(&classes);
                let sps: Vec<&PrimTy> = all.iter().filter(|p| p.prim == *c).collect();
                let p = r.sp.get(&sps);
                FTy::Prim { sp: p.sp.clone(), prim: p.prim }
            };
            let target = |r: &RawField, w: usize| {
                if si == 0 {
                    return None;
                }
                // Prefer the latest struct so that nesting gets deep.
                let t = [r.target.index(si), si - 1][r.sp.index(2)];
                (w + weights[t] < 1500).then_some((FTy::Struct(t), weights[t]))
            };
            let dyn_ok = f.dynamic && mode == Mode::Only140;
            let (ty, w) = match r.what {
                1 => target(&r, weight).unwrap_or_else(|| (prim(&r), 4)),
                2 => {
                    let p = r.class.get(&customs);
                    let Prim::Custom { words, .. } = p.prim else { unreachable!() };
                    (FTy::Prim { sp: p.sp.clone(), prim: p.prim }, (words as usize).min(700))
                }
                5 if mode != Mode::Both => match target(&r, weight) {
                    Some((FTy::Struct(t), w)) => (FTy::Out(t), w),
                    _ => (prim(&r), 4),
                },
                6 => {
                    let h = hand();
                    let p = r.class.get(&h);
                    (FTy::Prim { sp: p.sp.clone(), prim: p.prim }, 4)
                }
                3 if dyn_ok => {
                    let inner = match r.target.index(6) {
                        0 => FTy::Dyn(Box::new(prim(&r))),
                        1 if f.custom => {
                            let p = r.class.get(&customs);
                            FTy::Prim { sp: p.sp.clone(), prim: p.prim }
                        }
                        _ => prim(&r),
                    };
                    let w = if let FTy::Prim { prim: Prim::Custom { words, .. }, .. } = &inner { (*words as usize).min(700) } else { 4 };
                    (FTy::Dyn(Box::new(inner)), w)
                }
                4 if dyn_ok => {
                    let (t, w) = target(&r, weight).unwrap_or_else(|| (prim(&r), 4));
                    (FTy::Dyn(Box::new(t)), w)
                }
                _ => (prim(&r), 4),
            };
            weight += w;
            let pool = if f.names == Names::Glsl { GLSL_FIELDS } else { ODD_FIELDS };
            let mut name = match r.name {
                Some(i) if r.target.index(2) == 0 => i.get(pool).to_string(),
                Some(i) => identifier(i.index(usize::MAX) as u64, false),
                None => format!("f{fi}"),
            };
            if (f.glsl && (!name.is_ascii() || is_glsl_word(bare(&name)))) || name == "_" || def.fields.iter().any(|x| bare(&x.name) == bare(&name)) {
                name = format!("f{fi}");
            }
            def.fields.push(Field { name, ty });
        }
        weights.push(weight.max(1));
        out.structs.push(def);
    }
    out
}

/// Structs whose fields walk over all ordered pairs of the given types once,
/// in an order that depends on the seed.
pub fn all_pairs(rng: &mut impl Rng, mode: Mode, glsl: bool, chunk: usize, allow: fn(&PrimTy) -> bool) -> Vec<CaseDef> {
    let all: Vec<PrimTy> = prims().into_iter().filter(|p| mode.ok(p) && allow(p)).collect();
    let mut classes: Vec<Prim> = all.iter().map(|p| p.prim).collect();
    classes.sort();
    classes.dedup();
    let n = classes.len();
    let mut below = |k: usize| (rng.next_u64() % k as u64) as usize;
    // Eulerian circuit of the complete digraph with loops (Hierholzer).
    let mut edges: Vec<Vec<usize>> = (0..n)
        .map(|_| {
            let mut e: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                e.swap(i, below(i + 1));
            }
            e
        })
        .collect();
    let mut stack = vec![below(n)];
    let mut walk = vec![];
    while let Some(&v) = stack.last() {
        match edges[v].pop() {
            Some(u) => stack.push(u),
            None => {
                walk.push(v);
                stack.pop();
            }
        }
    }
    walk.reverse();
    let mut out = vec![];
    let mut i = 0;
    while i + 1 < walk.len() {
        let end = (i + chunk).min(walk.len());
        let fields = walk[i..end]
            .iter()
            .enumerate()
            .map(|(j, c)| {
                let sps: Vec<&PrimTy> = all.iter().filter(|p| p.prim == classes[*c]).collect();
                let p = sps[below(sps.len())];
                Field { name: format!("f{j}"), ty: FTy::Prim { sp: p.sp.clone(), prim: p.prim } }
            })
            .collect();
        out.push(CaseDef { mode, glsl, structs: vec![StructDef { name: "S0".into(), fields }] });
        // Chunks overlap by one field, so no pair is lost.
        i = end - 1;
    }
    out
}

/// A struct of `n` fields of any types.
pub fn wide(rng: &mut impl Rng, f: &Flavor, n: usize) -> CaseDef {
    let mut below = |k: usize| (rng.next_u64() % k as u64) as usize;
    let mode = f.modes[below(f.modes.len())];
    let all: Vec<PrimTy> = prims().into_iter().filter(|p| mode.ok(p) && (f.allow)(p) && (!f.glsl || p.glsl) && f.lib_ok(p)).collect();
    let fields = (0..n)
        .map(|j| {
            let p = &all[below(all.len())];
            Field { name: format!("f{j}"), ty: FTy::Prim { sp: p.sp.clone(), prim: p.prim } }
        })
        .collect();
    CaseDef { mode, glsl: f.glsl, structs: vec![StructDef { name: "S0".into(), fields }] }
}

/// Structs whose fields walk over all runs of `order` types that differ in size or
/// alignment (a de Bruijn sequence), each time with some type of that layout.
pub fn all_runs(rng: &mut impl Rng, mode: Mode, order: u32, chunk: usize) -> Vec<CaseDef> {
    let std = if mode.has(vs::model::Std::Std140) { vs::model::Std::Std140 } else { vs::model::Std::Std430 };
    let all: Vec<PrimTy> = prims().into_iter().filter(|p| mode.ok(p)).collect();
    let layout = |p: &PrimTy| {
        let l = vs::model::layout(&Ty::Prim(p.prim), std);
        (l.align, l.size)
    };
    let mut classes: Vec<(usize, usize)> = all.iter().map(layout).collect();
    classes.sort();
    classes.dedup();
    let mut below = |k: usize| (rng.next_u64() % k as u64) as usize;
    // Eulerian circuit: nodes are runs of order - 1 classes, an edge appends one.
    let (k, nodes) = (classes.len(), classes.len().pow(order - 1));
    let mut edges: Vec<Vec<usize>> = (0..nodes)
        .map(|_| {
            let mut e: Vec<usize> = (0..k).collect();
            for i in (1..k).rev() {
                e.swap(i, below(i + 1));
            }
            e
        })
        .collect();
    let mut stack = vec![below(nodes)];
    let mut walk = vec![];
    while let Some(&v) = stack.last() {
        match edges[v].pop() {
            Some(u) => stack.push((v * k + u) % nodes),
            None => {
                walk.push(v % k);
                stack.pop();
            }
        }
    }
    walk.reverse();
    let keep = order as usize - 1;
    let first: Vec<usize> = walk[1..=keep].to_vec();
    walk.extend(first);
    let mut out = vec![];
    let mut i = 0;
    while i + keep < walk.len() {
        let end = (i + chunk).min(walk.len());
        let fields = walk[i..end]
            .iter()
            .enumerate()
            .map(|(j, c)| {
                let some: Vec<&PrimTy> = all.iter().filter(|p| layout(p) == classes[*c]).collect();
                let p = some[below(some.len())];
                Field { name: format!("f{j}"), ty: FTy::Prim { sp: p.sp.clone(), prim: p.prim } }
            })
            .collect();
        out.push(CaseDef { mode, glsl: false, structs: vec![StructDef { name: "S0".into(), fields }] });
        // Chunks overlap, so no run is lost.
        i = end - keep;
    }
    out
}

#[test]
fn all_runs_has_all_runs() {
    let mut r = vs::run::rng(1, 2);
    for order in [2, 3, 4] {
        for (mode, std) in [(Mode::Only140, vs::model::Std::Std140), (Mode::Only430, vs::model::Std::Std430)] {
            let mut seen = std::collections::HashSet::new();
            let mut classes = std::collections::HashSet::new();
            for d in all_runs(&mut r, mode, order, 24) {
                let l: Vec<_> = d.structs[0].fields.iter().map(|f| vs::model::layout(&d.ty(&f.ty), std)).map(|l| (l.align, l.size)).collect();
                classes.extend(l.iter().copied());
                seen.extend(l.windows(order as usize).map(|w| w.to_vec()));
            }
            println!("{order} {std:?}: {} classes {} runs", classes.len(), seen.len());
            assert_eq!(seen.len(), classes.len().pow(order));
        }
    }
}

/// Definitions with shapes that independent random fields rarely have: long runs
/// of one small type with one or two others in it, anywhere; chains of structs
/// nested up to 12 deep; many fields of one nested struct.
pub fn shapes(rng: &mut impl Rng, f: &Flavor, n: usize) -> Vec<CaseDef> {
    let mut below = |k: usize| (rng.next_u64() % k as u64) as usize;
    let mut out = vec![];
    for i in 0..n {
        let mode = f.modes[below(f.modes.len())];
        let all: Vec<PrimTy> = prims().into_iter().filter(|p| mode.ok(p) && (f.allow)(p) && (!f.glsl || p.glsl) && f.lib_ok(p)).collect();
        let mut odd = all.clone();
        if f.custom {
            odd.extend(customs().into_iter().filter(|p| matches!(p.prim, Prim::Custom { words, .. } if words <= 64)));
        }
        let plain = |p: &PrimTy| FTy::Prim { sp: p.sp.clone(), prim: p.prim };
        let small: Vec<&PrimTy> = all.iter().filter(|p| matches!(p.prim, Prim::Scalar(_) | Prim::Vec(_, 2 | 3))).collect();
        let filler = plain(if small.is_empty() { &all[0] } else { small[below(small.len())] });
        let wrap = |t: FTy, b: usize| if f.dynamic && mode == Mode::Only140 && b == 0 { FTy::Dyn(Box::new(t)) } else { t };
        let name = |fs: Vec<FTy>| fs.into_iter().enumerate().map(|(j, ty)| Field { name: format!("f{j}"), ty }).collect::<Vec<_>>();
        let mut structs = vec![];
        match if i < 2 && f.huge { 10 + i } else { i % 4 } {
            // More fields than a byte can count.
            10 => {
                let len = 257 + below(40);
                let mut fs = vec![filler; len];
                fs[256 + below(len - 256)] = plain(&all[below(all.len())]);
                fs[below(len)] = plain(&all[below(all.len())]);
                structs.push(StructDef { name: "S0".into(), fields: name(fs) });
            }
            // More bytes than a u16 can count.
            11 => {
                let mats: Vec<&PrimTy> = all.iter().filter(|p| matches!(p.prim, Prim::Mat(_, 4))).collect();
                let m = plain(if mats.is_empty() { &all[below(all.len())] } else { mats[below(mats.len())] });
                structs.push(StructDef { name: "S0".into(), fields: name(vec![m; 16]) });
                structs.push(StructDef { name: "S1".into(), fields: name(vec![FTy::Struct(0); 8]) });
                let mut fs = vec![FTy::Struct(1); 9];
                fs.insert(below(10), filler);
                fs.push(plain(&all[below(all.len())]));
                fs.push(plain(&all[below(all.len())]));
                structs.push(StructDef { name: "S2".into(), fields: name(fs) });
            }
            0 | 1 => {
                let len = [1 + below(12), 12 + below(28), 40 + below(80)][[0, 1, 1, 1, 2][below(5)]];
                let mut fs = vec![filler; len];
                for _ in 0..1 + below(2) {
                    let at = [below(len), len - 1, 0][below(3).min(below(3))];
                    fs[at] = wrap(plain(&odd[below(odd.len())]), below(6));
                }
                structs.push(StructDef { name: "S0".into(), fields: name(fs) });
            }
            2 => {
                structs.push(StructDef { name: "S0".into(), fields: name((0..below(3)).map(|_| plain(&odd[below(odd.len())])).collect()) });
                for d in 1..3 + below(10) {
                    let mut fs: Vec<FTy> = (0..below(3)).map(|_| plain(&all[below(all.len())])).collect();
                    let at = below(fs.len() + 1);
                    fs.insert(at, wrap(FTy::Struct(d - 1), below(8)));
                    structs.push(StructDef { name: format!("S{d}"), fields: name(fs) });
                }
            }
            _ => {
                structs.push(StructDef { name: "S0".into(), fields: name((0..1 + below(4)).map(|_| plain(&odd[below(odd.len())])).collect()) });
                let len = 2 + below(20);
                let mut fs = vec![FTy::Struct(0); len];
                for _ in 0..below(3) {
                    fs[below(len)] = filler.clone();
                }
                structs.push(StructDef { name: "S1".into(), fields: name(fs) });
            }
        }
        out.push(CaseDef { mode, glsl: f.glsl, structs });
    }
    out
}

/// A fixed definition, shrunk by dropping fields.
pub struct Fixed {
    pub def: CaseDef,
    pub last: Option<(usize, Field)>,
    pub pos: usize,
}
impl ValueTree for Fixed {
    type Value = CaseDef;
    fn current(&self) -> CaseDef {
        self.def.clone()
    }
    fn simplify(&mut self) -> bool {
        self.last = None;
        let s = self.def.structs.last_mut().unwrap();
        if self.pos >= s.fields.len() || s.fields.len() == 1 {
            return false;
        }
        self.last = Some((self.pos, s.fields.remove(self.pos)));
        true
    }
    fn complicate(&mut self) -> bool {
        let Some((i, f)) = self.last.take() else { return false };
        self.def.structs.last_mut().unwrap().fields.insert(i, f);
        self.pos = i + 1;
        true
    }
}
