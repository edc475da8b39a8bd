//! Renders values, expected bytes and component checks as plain Rust source that
//! depends on nothing but crevice and the math libraries.

use crate::gen::{bare, CaseDef, FTy};
use vs::model::{self, Kind, Prim, Std};

fn scalar(k: Kind, w: u64) -> String {
    match k {
        Kind::F32 => format!("f32::from_bits({:#x})", w as u32),
        Kind::F64 => format!("f64::from_bits({w:#x})"),
        Kind::I32 => format!("{}i32", w as u32 as i32),
        Kind::U32 => format!("{:#x}u32", w as u32),
        Kind::Bool => format!("{}", w & 1 != 0),
    }
}

/// An expression that turns a scalar place into `u64` bits.
fn bits(k: Kind, place: &str) -> String {
    match k {
        Kind::F32 => format!("(({place}).to_bits() as u64)"),
        Kind::F64 => format!("({place}).to_bits()"),
        Kind::I32 => format!("(({place}) as u32 as u64)"),
        Kind::U32 => format!("(({place}) as u64)"),
        Kind::Bool => format!("(({place}) as u64)"),
    }
}

/// `::mint::Vector3<f32>`: usable in any scope.
pub fn absolute(sp: &str) -> String {
    if sp.contains("::") {
        format!("::{sp}")
    } else {
        sp.to_string()
    }
}

const XYZW: [&str; 4] = ["x", "y", "z", "w"];

pub fn value(c: &CaseDef, t: &FTy, w: &mut impl Iterator<Item = u64>) -> String {
    match t {
        FTy::Struct(i) => struct_value(c, *i, w),
        FTy::Out(i) => {
            let m = c.only().name();
            format!("<{} as ::crevice::{m}::AsS{}>::as_{m}(&{})", c.structs[*i].name, &m[1..], struct_value(c, *i, w))
        }
        FTy::Dyn(t) => format!("::crevice::std140::DynamicUniform({})", value(c, t, w)),
        FTy::Prim { sp, prim } => prim_value(sp, *prim, w),
    }
}

pub fn struct_value(c: &CaseDef, i: usize, w: &mut impl Iterator<Item = u64>) -> String {
    let s = &c.structs[i];
    let f: Vec<String> = s.fields.iter().map(|f| format!("{}: {}", f.name, value(c, &f.ty, w))).collect();
    format!("{} {{ {} }}", s.name, f.join(", "))
}

/// `glam::Mat3` -> `glam::Vec3`, `cgmath::Matrix2<f64>` -> `cgmath::Vector2<f64>`.
fn column_type(sp: &str) -> String {
    sp.replace("ColumnMatrix", "Vector").replace("Matrix", "Vector").replace("Mat", "Vec")
}

/// Without generic arguments, for constructors.
fn base(sp: &str) -> &str {
    sp.split('<').next().unwrap()
}

pub fn prim_value(sp: &str, p: Prim, w: &mut impl Iterator<Item = u64>) -> String {
    let lib = sp.split("::").next().unwrap();
    match p {
        Prim::Scalar(k) => {
            let s = scalar(k, w.next().unwrap());
            if lib == "crevice" {
                format!("<::crevice::std140::Bool as ::core::convert::From<bool>>::from({s})")
            } else {
                s
            }
        }
        Prim::Vec(k, n) => {
            let v: Vec<String> = (0..n).map(|_| scalar(k, w.next().unwrap())).collect();
            match lib {
                "mint" | "cgmath" => {
                    let f: Vec<String> = v.iter().enumerate().map(|(i, e)| format!("{}: {}", XYZW[i], e)).collect();
                    format!("::{} {{ {} }}", base(sp), f.join(", "))
                }
                "crevice" => {
                    let f: Vec<String> = v
                        .iter()
                        .enumerate()
                        .map(|(i, e)| {
                            if k == Kind::Bool {
                                format!("{}: <::crevice::std140::Bool as ::core::convert::From<bool>>::from({})", XYZW[i], e)
                            } else {
                                format!("{}: {}", XYZW[i], e)
                            }
                        })
                        .collect();
                    format!("::{} {{ {} }}", base(sp), f.join(", "))
                }
                _ => format!("::{}::new({})", base(sp), v.join(", ")),
            }
        }
        Prim::Mat(k, n) => match lib {
            "nalgebra" => {
                let v: Vec<String> = (0..n as usize * n as usize).map(|_| scalar(k, w.next().unwrap())).collect();
                format!("::{}::from_column_slice(&[{}])", base(sp), v.join(", "))
            }
            "crevice" => {
                let col = column_type(sp);
                let f: Vec<String> = (0..n as usize).map(|i| format!("m.{} = {};", XYZW[i], prim_value(&col, Prim::Vec(k, n), w))).collect();
                format!("{{ let mut m: ::{sp} = ::bytemuck::Zeroable::zeroed(); {} m }}", f.join(" "))
            }
            "mint" => {
                let col = column_type(sp);
                let f: Vec<String> = (0..n as usize).map(|i| format!("{}: {}", XYZW[i], prim_value(&col, Prim::Vec(k, n), w))).collect();
                format!("::{} {{ {} }}", base(sp), f.join(", "))
            }
            _ => {
                let col = column_type(sp);
                let f: Vec<String> = (0..n as usize).map(|_| prim_value(&col, Prim::Vec(k, n), w)).collect();
                format!("::{}::from_cols({})", base(sp), f.join(", "))
            }
        },
        Prim::Custom { words, .. } => {
            let v: Vec<String> = (0..words).map(|_| format!("{:#x}", w.next().unwrap() as u32)).collect();
            format!("{}([{}])", absolute(&sp.replace('<', "::<")), v.join(", "))
        }
    }
}

/// Expressions that read every component of `place` as u64, in order.
pub fn reads(c: &CaseDef, t: &FTy, place: &str, out: &mut Vec<String>) {
    match t {
        FTy::Struct(i) => {
            for f in &c.structs[*i].fields {
                reads(c, &f.ty, &format!("{place}.{}", f.name), out);
            }
        }
        FTy::Out(i) => {
            let m = c.only().name();
            let place = format!("<{} as ::crevice::{m}::AsS{}>::from_{m}({place})", c.structs[*i].name, &m[1..]);
            reads(c, &FTy::Struct(*i), &place, out)
        }
        FTy::Dyn(t) => reads(c, t, &format!("{place}.0"), out),
        FTy::Prim { sp, prim } => prim_reads(sp, *prim, place, out),
    }
}

pub fn prim_reads(sp: &str, p: Prim, place: &str, out: &mut Vec<String>) {
    let lib = sp.split("::").next().unwrap();
    match p {
        Prim::Scalar(k) => {
            if lib == "crevice" {
                out.push(format!("(<bool as ::core::convert::From<::crevice::std140::Bool>>::from({place}) as u64)"))
            } else {
                out.push(bits(k, place))
            }
        }
        Prim::Vec(k, n) => {
            for i in 0..n as usize {
                let e = match lib {
                    "nalgebra" => format!("{place}[{i}]"),
                    "crevice" if k == Kind::Bool => format!("<bool as ::core::convert::From<::crevice::std140::Bool>>::from({place}.{})", XYZW[i]),
                    _ => format!("{place}.{}", XYZW[i]),
                };
                out.push(bits(k, &e));
            }
        }
        Prim::Mat(k, n) => {
            for col in 0..n as usize {
                for r in 0..n as usize {
                    let e = match lib {
                        "nalgebra" => format!("{place}[({r}, {col})]"),
                        "glam" => format!("{place}.col({col})[{r}]"),
                        _ => format!("{place}.{}.{}", XYZW[col], XYZW[r]),
                    };
                    out.push(bits(k, &e));
                }
            }
        }
        Prim::Custom { words, .. } => {
            for i in 0..words {
                out.push(format!("({place}.0[{i}] as u64)"));
            }
        }
    }
}

pub fn bytes(b: &[u8]) -> String {
    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

/// What else to check.
#[derive(Clone, Copy, Default)]
pub struct More {
    pub sizer: bool,
    pub writer: bool,
    /// Also writes slices and looks at every byte.
    pub slice: bool,
    /// The program runs on a big-endian target.
    pub big: bool,
    /// The derives were built with their debug methods; `crate::metrics` reads a report.
    pub metrics: bool,
}

/// The expected encoding, in the byte order of the target.
pub fn encoding(ty: &model::Ty, std: Std, words: &[u64], big: bool) -> Vec<u8> {
    let mut enc = model::encode(ty, std, words);
    if big != cfg!(target_endian = "big") {
        for c in model::comps(ty, std) {
            enc[c.offset..c.offset + c.kind.size()].reverse();
        }
    }
    enc
}

/// A block of statements that checks `ty_expr` (type `sp`, value `val`) in `std`:
/// `fail!(message)` must be a macro in scope that leaves with an error.
pub fn check_block(
    c: &CaseDef,
    t: &FTy,
    ty_sp: &str,
    std: Std,
    words: &[u64],
    glsl: Option<&str>,
    more: More,
) -> String {
    let ty = c.ty(t);
    let l = model::layout(&ty, std);
    let enc = encoding(&ty, std, words, more.big);
    let m = std.name();
    let up = if std == Std::Std140 { "140" } else { "430" };
    let mut it = words.iter().copied();
    let v = value(c, t, &mut it);
    let mut rd = vec![];
    reads(c, t, "back", &mut rd);
    let mut o = String::new();
    o += "{\n";
    o += &format!("    let v: {ty_sp} = {v};\n");
    o += &format!("    let g = <{ty_sp} as ::crevice::{m}::AsStd{up}>::as_{m}(&v);\n");
    o += &format!(
        "    type CheckedOutput_ = <{ty_sp} as ::crevice::{m}::AsStd{up}>::Output;\n    if <CheckedOutput_ as ::crevice::{m}::Std{up}>::ALIGNMENT != {} {{ fail!(\"{m}: wrong alignment\"); }}\n",
        l.align
    );
    o += &format!("    if <{ty_sp} as ::crevice::{m}::AsStd{up}>::{m}_size_static() != {} {{ fail!(\"{m}: wrong size\"); }}\n", l.size);
    o += &format!("    let b: &[u8] = <CheckedOutput_ as ::crevice::{m}::Std{up}>::as_bytes(&g);\n");
    o += &format!("    let want: [u8; {}] = {};\n", l.size, bytes(&enc));
    if matches!(t, FTy::Struct(_)) {
        // As a user calls it, without the trait.
        o += "    if g.as_bytes() != &want[..] { fail!(\"as_bytes gives wrong bytes\"); }\n";
    }
    o += "    if b != &want[..] { fail!(\"wrong bytes\"); }\n";
    if !rd.is_empty() {
        o += &format!("    let back = <{ty_sp} as ::crevice::{m}::AsStd{up}>::from_{m}(g);\n");
        o += &format!("    let got: [u64; {}] = [{}];\n", rd.len(), rd.join(", "));
        let ws: Vec<String> = words.iter().map(|w| format!("{w:#x}")).collect();
        o += &format!("    let want: [u64; {}] = [{}];\n", rd.len(), ws.join(", "));
        o += "    if got != want { fail!(\"does not convert back\"); }\n";
    }
    if more.sizer {
        o += &format!("    {{ let mut s = ::crevice::{m}::Sizer::new(); if s.add::<{ty_sp}>() != 0 || s.len() != {} {{ fail!(\"{m}: Sizer disagrees\"); }} }}\n", l.size);
    }
    if more.writer {
        // Writing twice shows the alignment too.
        let mut twice = enc.clone();
        let second = twice.len().div_ceil(l.align.max(1)) * l.align.max(1);
        twice.resize(second, 0);
        twice.extend(&enc);
        o += &format!(
            "    {{ let mut out: ::std::vec::Vec<u8> = ::std::vec::Vec::new(); let mut w = ::crevice::{m}::Writer::new(&mut out); \
             let a = w.write(&v); let b = w.write(&v); let n = w.len(); \
             if a.ok() != ::core::option::Option::Some(0) || b.ok() != ::core::option::Option::Some({second}) || n != {} {{ fail!(\"{m}: Writer returns wrong offsets\"); }} \
             let want: [u8; {}] = {}; if out[..] != want[..] {{ fail!(\"{m}: Writer writes wrong bytes\"); }} }}\n",
            twice.len(), twice.len(), bytes(&twice)
        );
    }
    if more.slice {
        let (mut a, mut b) = (words.iter().copied(), words.iter().copied());
        o += &format!(
            "    {{ let mut out: ::std::vec::Vec<u8> = ::std::vec::Vec::new(); let mut w = ::crevice::{m}::Writer::new(&mut out); \
             let vs: [{ty_sp}; 2] = [{}, {}]; let _ = w.write(&7u32); let _ = w.write(&vs[..]); let _ = w.write_iter(vs); let n = w.len(); \
             let sum: u64 = out.iter().map(|b| *b as u64).sum(); if out.len() != n || sum == u64::MAX {{ fail!(\"{m}: wrong length\"); }} }}\n",
            value(c, t, &mut a), value(c, t, &mut b)
        );
    }
    if let (true, FTy::Struct(i)) = (more.metrics, t) {
        let mut off = 0;
        let fields: Vec<String> = c.structs[*i]
            .fields
            .iter()
            .map(|f| {
                let fl = model::layout(&c.ty(&f.ty), std);
                let at = model::up(off, fl.align);
                off = at + fl.size;
                format!("({:?}, {at}, {})", bare(&f.name), fl.size)
            })
            .collect();
        o += &format!(
            "    if let ::core::option::Option::Some(m) = crate::metrics(&CheckedOutput_::debug_metrics(), {}, {}, &[{}]) {{ fail!(m) }}\n    let text: &str = CheckedOutput_::debug_definitions(); if text.is_empty() {{ fail!(\"debug_definitions gives nothing\") }}\n",
            l.size, l.align, fields.join(", ")
        );
    }
    if let Some(n) = glsl {
        o += &format!("    if <{ty_sp} as ::crevice::glsl::Glsl>::NAME != {n:?} {{ fail!(\"wrong GLSL name\"); }}\n");
    }
    o += "}\n";
    o
}

pub fn glsl_name(c: &CaseDef, t: &FTy) -> Option<String> {
    match t {
        FTy::Prim { prim: Prim::Custom { .. }, .. } | FTy::Dyn(_) | FTy::Out(_) => None,
        FTy::Prim { prim, .. } => Some(prim.glsl()),
        FTy::Struct(i) => c.glsl.then(|| bare(&c.structs[*i].name).to_string()),
    }
}

/// The same check as a program for `ops`-free use: words chosen by `seed`.
pub fn words(c: &CaseDef, t: &FTy, seed: u64) -> Vec<u64> {
    let k = model::kinds(&c.ty(t));
    let mut x = seed ^ 0x9e37_79b9_7f4a_7c15;
    k.iter()
        .map(|k| {
            // xorshift64*: literal values need no shrinking.
            x ^= x >> 12;
            x ^= x << 25;
            x ^= x >> 27;
            let r = x.wrapping_mul(0x2545_f491_4f6c_dd1d);
            k.canon(if r % 11 == 0 { 0x8000_0000_0000_0001 } else { r })
        })
        .collect()
}
