//! Reference model of GLSL's std140 and std430 layouts, written from the GLSL
//! specification (section 7.6.2.2 "Standard Uniform Block Layout"). Shares no
//! code with crevice.

use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Kind {
    F32,
    F64,
    I32,
    U32,
    Bool,
}

impl Kind {
    pub fn size(self) -> usize {
        if self == Kind::F64 {
            8
        } else {
            4
        }
    }
    /// Forces a random word into the value range of this kind.
    pub fn canon(self, w: u64) -> u64 {
        match self {
            Kind::F64 => w,
            Kind::Bool => w & 1,
            _ => w & 0xffff_ffff,
        }
    }
    /// The value of a component stored as `w` by a shader.
    pub fn decode(self, w: u64) -> u64 {
        match self {
            Kind::Bool => (w as u32 != 0) as u64,
            _ => w,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Prim {
    Scalar(Kind),
    Vec(Kind, u8),
    /// Square matrix of f32 or f64: n columns of n rows.
    Mat(Kind, u8),
    /// A user type implementing Std140/Std430 by hand: `words` u32s in a row.
    Custom { words: u32, align: u32 },
}

impl Prim {
    pub fn glsl(self) -> String {
        let p = |k: Kind| match k {
            Kind::F32 => "",
            Kind::F64 => "d",
            Kind::I32 => "i",
            Kind::U32 => "u",
            Kind::Bool => "b",
        };
        match self {
            Prim::Scalar(Kind::F32) => "float".into(),
            Prim::Scalar(Kind::F64) => "double".into(),
            Prim::Scalar(Kind::I32) => "int".into(),
            Prim::Scalar(Kind::U32) => "uint".into(),
            Prim::Scalar(Kind::Bool) => "bool".into(),
            Prim::Vec(k, n) => format!("{}vec{}", p(k), n),
            Prim::Mat(k, n) => format!("{}mat{}", p(k), n),
            Prim::Custom { words, align } => format!("custom{}a{}", words, align),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum Ty {
    Prim(Prim),
    Struct { name: String, fields: Vec<(String, Ty)> },
    Dyn(Box<Ty>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Std {
    Std140,
    Std430,
}

impl Std {
    pub fn name(self) -> &'static str {
        match self {
            Std::Std140 => "std140",
            Std::Std430 => "std430",
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Layout {
    pub align: usize,
    pub size: usize,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Comp {
    pub offset: usize,
    pub kind: Kind,
    pub path: String,
}

pub fn up(offset: usize, align: usize) -> usize {
    let mut o = offset;
    let r = o % align;
    if r != 0 {
        o += align - r;
    }
    o
}

/// Base alignment of a vector of `n` components of machine size `m`:
/// N, 2N, 4N, 4N.
fn vec_align(m: usize, n: usize) -> usize {
    match n {
        1 => m,
        2 => 2 * m,
        3 | 4 => 4 * m,
        _ => unreachable!(),
    }
}

/// Column stride of a matrix: an array of column vectors. std140 rounds the
/// element alignment up to that of a vec4.
fn mat_stride(std: Std, m: usize, rows: usize) -> usize {
    let a = vec_align(m, rows);
    match std {
        Std::Std140 => up(a, 16),
        Std::Std430 => a,
    }
}

pub fn layout(ty: &Ty, std: Std) -> Layout {
    match ty {
        Ty::Prim(Prim::Scalar(k)) => Layout { align: k.size(), size: k.size() },
        Ty::Prim(Prim::Vec(k, n)) => Layout {
            align: vec_align(k.size(), *n as usize),
            size: k.size() * *n as usize,
        },
        Ty::Prim(Prim::Mat(k, n)) => {
            let s = mat_stride(std, k.size(), *n as usize);
            Layout { align: s, size: s * *n as usize }
        }
        Ty::Prim(Prim::Custom { words, align }) => {
            Layout { align: *align as usize, size: *words as usize * 4 }
        }
        Ty::Struct { fields, .. } => {
            let mut align = if std == Std::Std140 { 16 } else { 1 };
            let mut off = 0;
            for (_, f) in fields {
                let l = layout(f, std);
                align = align.max(l.align);
                off = up(off, l.align) + l.size;
            }
            Layout { align, size: up(off, align) }
        }
        Ty::Dyn(t) => {
            let l = layout(t, std);
            Layout { align: l.align.max(256), size: l.size }
        }
    }
}

/// All scalar components in declaration order with their byte offsets.
pub fn comps(ty: &Ty, std: Std) -> Vec<Comp> {
    let mut v = Vec::new();
    place(ty, std, 0, "", &mut v);
    v
}

fn place(ty: &Ty, std: Std, base: usize, path: &str, out: &mut Vec<Comp>) {
    match ty {
        Ty::Prim(Prim::Scalar(k)) => out.push(Comp { offset: base, kind: *k, path: path.into() }),
        Ty::Prim(Prim::Vec(k, n)) => {
            for i in 0..*n as usize {
                let path = format!("{}.{}", path, ["x", "y", "z", "w"][i]);
                out.push(Comp { offset: base + i * k.size(), kind: *k, path });
            }
        }
        Ty::Prim(Prim::Mat(k, n)) => {
            let s = mat_stride(std, k.size(), *n as usize);
            for c in 0..*n as usize {
                for r in 0..*n as usize {
                    out.push(Comp {
                        offset: base + c * s + r * k.size(),
                        kind: *k,
                        path: format!("{}[{}].{}", path, c, ["x", "y", "z", "w"][r]),
                    });
                }
            }
        }
        Ty::Prim(Prim::Custom { words, .. }) => {
            for i in 0..*words as usize {
                out.push(Comp { offset: base + 4 * i, kind: Kind::U32, path: format!("{}#{}", path, i) });
            }
        }
        Ty::Struct { fields, .. } => {
            let mut off = base;
            for (name, f) in fields {
                let l = layout(f, std);
                off = up(off, l.align);
                let p = if path.is_empty() { name.clone() } else { format!("{}.{}", path, name) };
                place(f, std, off, &p, out);
                off += l.size;
            }
        }
        Ty::Dyn(t) => place(t, std, base, path, out),
    }
}

pub fn kinds(ty: &Ty) -> Vec<Kind> {
    fn go(ty: &Ty, out: &mut Vec<Kind>) {
        match ty {
            Ty::Prim(Prim::Scalar(k)) => out.push(*k),
            Ty::Prim(Prim::Vec(k, n)) => out.extend(std::iter::repeat(*k).take(*n as usize)),
            Ty::Prim(Prim::Mat(k, n)) => {
                out.extend(std::iter::repeat(*k).take(*n as usize * *n as usize))
            }
            Ty::Prim(Prim::Custom { words, .. }) => {
                out.extend(std::iter::repeat(Kind::U32).take(*words as usize))
            }
            Ty::Struct { fields, .. } => fields.iter().for_each(|(_, f)| go(f, out)),
            Ty::Dyn(t) => go(t, out),
        }
    }
    let mut v = Vec::new();
    go(ty, &mut v);
    v
}

/// The bytes a value must have: components in place, everything else zero.
pub fn encode(ty: &Ty, std: Std, words: &[u64]) -> Vec<u8> {
    let l = layout(ty, std);
    let mut out = vec![0u8; l.size];
    encode_comps(&comps(ty, std), words, &mut out);
    out
}

pub fn encode_comps(cs: &[Comp], words: &[u64], out: &mut [u8]) {
    assert_eq!(cs.len(), words.len());
    for (c, w) in cs.iter().zip(words) {
        let n = c.kind.size();
        out[c.offset..c.offset + n].copy_from_slice(&w.to_ne_bytes_n(n));
    }
}

pub trait ToNe {
    fn to_ne_bytes_n(&self, n: usize) -> Vec<u8>;
}
impl ToNe for u64 {
    fn to_ne_bytes_n(&self, n: usize) -> Vec<u8> {
        if n == 8 {
            self.to_ne_bytes().to_vec()
        } else {
            (*self as u32).to_ne_bytes().to_vec()
        }
    }
}

/// Reads the component stored at `c` in `bytes` (raw word, not normalised).
pub fn read_raw(c: &Comp, bytes: &[u8]) -> u64 {
    if c.kind.size() == 8 {
        u64::from_ne_bytes(bytes[c.offset..c.offset + 8].try_into().unwrap())
    } else {
        u32::from_ne_bytes(bytes[c.offset..c.offset + 4].try_into().unwrap()) as u64
    }
}

/// For every byte of the encoding, whether it belongs to a component.
pub fn covered(cs: &[Comp], size: usize) -> Vec<bool> {
    let mut v = vec![false; size];
    for c in cs {
        for b in &mut v[c.offset..c.offset + c.kind.size()] {
            *b = true;
        }
    }
    v
}

/// Deterministic stretch of a few generated words to `kinds.len()` words. The
/// first words are used unchanged, so special values survive.
pub fn stretch(raw: &[u64], kinds: &[Kind]) -> Vec<u64> {
    kinds
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let w = if raw.is_empty() { 0 } else { raw[i % raw.len()] };
            let round = if raw.is_empty() { 0 } else { i / raw.len() } as u64;
            let w = if round == 0 {
                w
            } else {
                w.rotate_left((round as u32 * 11) % 64) ^ round.wrapping_mul(0x0101_0101_0101_0101)
            };
            k.canon(w)
        })
        .collect()
}

pub fn depth(ty: &Ty) -> usize {
    match ty {
        Ty::Struct { fields, .. } => 1 + fields.iter().map(|f| depth(&f.1)).max().unwrap_or(0),
        Ty::Dyn(t) => depth(t),
        _ => 0,
    }
}

pub fn contains(ty: &Ty, f: &dyn Fn(&Ty) -> bool) -> bool {
    f(ty)
        || match ty {
            Ty::Struct { fields, .. } => fields.iter().any(|x| contains(&x.1, f)),
            Ty::Dyn(t) => contains(t, f),
            _ => false,
        }
}
