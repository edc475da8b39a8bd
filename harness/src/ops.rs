//! A uniform, type-erased view of one type in one layout, built only from
//! crevice's public API.

use crate::host::{from_words, to_words, Host};
use crate::model::{self, Comp, Kind, Layout, Std, Ty};
use crate::sink::Sink;
use std::io;

pub enum AnyWriter {
    W140(crevice::std140::Writer<Sink>),
    W430(crevice::std430::Writer<Sink>),
}
impl AnyWriter {
    pub fn new(std: Std, sink: &Sink) -> Self {
        match std {
            Std::Std140 => AnyWriter::W140(crevice::std140::Writer::new(sink.clone())),
            Std::Std430 => AnyWriter::W430(crevice::std430::Writer::new(sink.clone())),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            AnyWriter::W140(w) => w.len(),
            AnyWriter::W430(w) => w.len(),
        }
    }
}
pub enum AnySizer {
    S140(crevice::std140::Sizer),
    S430(crevice::std430::Sizer),
}
impl AnySizer {
    pub fn new(std: Std) -> Self {
        match std {
            Std::Std140 => AnySizer::S140(crevice::std140::Sizer::new()),
            Std::Std430 => AnySizer::S430(crevice::std430::Sizer::new()),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            AnySizer::S140(w) => w.len(),
            AnySizer::S430(w) => w.len(),
        }
    }
}

pub struct GlslInfo {
    pub name: &'static str,
    /// Only for structs.
    pub definition: Option<String>,
    pub fields: Option<Vec<(String, String)>>,
}

type Res = io::Result<usize>;

pub struct Ops {
    /// Rust spelling, e.g. `mint::Vector3<f32>` or `c12::S1`.
    pub name: String,
    pub case: usize,
    pub std: Std,
    pub ty: Ty,
    pub kinds: Vec<Kind>,
    pub comps: Vec<Comp>,
    pub model: Layout,
    pub glsl: Option<GlslInfo>,

    // What crevice says and does.
    pub align: usize,
    pub size_of: usize,
    pub size_static: usize,
    pub encode: fn(&[u64]) -> Vec<u8>,
    /// For structs: `as_bytes` as a user gets it who imports no trait.
    pub as_bytes: Option<fn(&[u64]) -> Vec<u8>>,
    /// Encodes in memory that was filled with garbage first.
    pub encode_dirty: fn(&[u64], u8) -> Vec<u8>,
    pub decode: fn(&[u8]) -> Vec<u64>,
    /// from(as(v)) without going through bytes.
    pub there_and_back: fn(&[u64]) -> Vec<u64>,
    pub write: fn(&mut AnyWriter, &[u64]) -> Res,
    pub write_raw: fn(&mut AnyWriter, &[u64]) -> Res,
    pub write_via_trait: fn(&mut AnyWriter, &[u64]) -> Res,
    pub write_slice: fn(&mut AnyWriter, &[Vec<u64>]) -> Res,
    pub write_slice_deprecated: Option<fn(&mut AnyWriter, &[Vec<u64>]) -> Res>,
    pub write_iter: fn(&mut AnyWriter, &[Vec<u64>]) -> Res,
    pub write_iter_lazy: fn(&mut AnyWriter, &[Vec<u64>]) -> Res,
    /// The iterator would go on after its end.
    pub write_iter_goes_on: fn(&mut AnyWriter, &[Vec<u64>]) -> Res,
    /// The iterator panics at its end; gives `usize::MAX`.
    pub write_iter_panics: fn(&mut AnyWriter, &[Vec<u64>]) -> Res,
    pub write_iter_converted: fn(&mut AnyWriter, &[Vec<u64>]) -> Res,
    pub write_slice_converted: fn(&mut AnyWriter, &[Vec<u64>]) -> Res,
    pub write_custom_slice: fn(&mut AnyWriter, &[Vec<u64>]) -> Res,
    pub write_custom_iter: fn(&mut AnyWriter, &[Vec<u64>]) -> Res,
    pub sizer_add: fn(&mut AnySizer) -> usize,
    pub size_value: fn(&[u64]) -> usize,
    pub size_slice: fn(&[Vec<u64>]) -> usize,
    pub size_converted: fn(&[u64]) -> usize,
    pub size_custom: fn(&[Vec<u64>]) -> usize,
    pub size_custom_slice: fn(&[Vec<u64>]) -> usize,
    /// DynamicUniform (std140 only): (align, size_of, size_static, bytes, back)
    pub dynamic: Option<fn(&[u64]) -> (usize, usize, usize, Vec<u8>, Vec<u64>)>,
    pub dynamic_write: Option<fn(&mut AnyWriter, &[u64]) -> Res>,
    pub dynamic_write_slice: Option<fn(&mut AnyWriter, &[Vec<u64>]) -> Res>,
    pub dynamic_sizer: Option<fn(&mut AnySizer) -> usize>,
}

struct Enough;

/// A user type that implements the Write traits by hand: a length followed by
/// its elements, like the documentation's light list.
pub struct Batch<T>(pub Vec<T>);

macro_rules! layout_ops {
    ($f:ident, $m:ident, $Std:ident, $As:ident, $Write:ident, $as_:ident, $from:ident, $write_fn:ident,
     $size:ident, $size_static:ident, $W:ident, $S:ident, $dep:expr, $dynamic:expr, $dw:expr, $dws:expr, $ds:expr) => {
        impl<T: crevice::$m::$As> crevice::$m::$Write for Batch<T> {
            fn $write_fn<W: io::Write>(&self, writer: &mut crevice::$m::Writer<W>) -> Res {
                let before = writer.len();
                let at = writer.write(&(self.0.len() as u32))?;
                // Such a type may ask the Writer where it is.
                let here = writer.len();
                if at < before || here != at + 4 {
                    panic!("a u32 written at length {before} is at {at}, and the length then {here}");
                }
                // Any of the calls may be used from here.
                match (here / 4 + self.0.len()) % 5 {
                    0 => {
                        writer.write(self.0.as_slice())?;
                    }
                    1 => {
                        writer.write_iter(self.0.iter().map(crevice::$m::$As::$as_))?;
                    }
                    2 => {
                        for x in &self.0 {
                            writer.$write_fn(&x.$as_())?;
                        }
                    }
                    _ => {
                        for x in &self.0 {
                            writer.write(x)?;
                        }
                    }
                }
                let size = core::mem::size_of::<T::Output>() * self.0.len();
                if writer.len() < here + size {
                    panic!("{size} bytes written at length {here}, and the length then {}", writer.len());
                }
                Ok(at)
            }
        }

        pub fn $f<T: Host + crevice::$m::$As>(name: &str, case: usize, glsl: Option<GlslInfo>) -> Ops {
            use crevice::$m::{$As, $Std, $Write};
            fn w(w: &mut AnyWriter) -> &mut crevice::$m::Writer<Sink> {
                match w {
                    AnyWriter::$W(w) => w,
                    _ => panic!("harness: layout mix-up"),
                }
            }
            fn s(s: &mut AnySizer) -> &mut crevice::$m::Sizer {
                match s {
                    AnySizer::$S(s) => s,
                    _ => panic!("harness: layout mix-up"),
                }
            }
            fn many<T: Host>(v: &[Vec<u64>]) -> Vec<T> {
                v.iter().map(|x| from_words::<T>(x)).collect()
            }
            fn conv<T: Host + $As>(v: &[Vec<u64>]) -> Vec<T::Output> {
                v.iter().map(|x| from_words::<T>(x).$as_()).collect()
            }
            let ty = T::schema();
            Ops {
                name: name.to_string(),
                case,
                std: Std::$Std,
                kinds: model::kinds(&ty),
                comps: model::comps(&ty, Std::$Std),
                model: model::layout(&ty, Std::$Std),
                ty,
                glsl,
                align: <T::Output as $Std>::ALIGNMENT,
                size_of: core::mem::size_of::<T::Output>(),
                size_static: T::$size_static(),
                as_bytes: None,
                encode: |v| from_words::<T>(v).$as_().as_bytes().to_vec(),
                encode_dirty: |v, fill| {
                    let t = from_words::<T>(v);
                    // A heap slot of the right size and alignment full of garbage.
                    let mut slot: Box<core::mem::MaybeUninit<T::Output>> = Box::new(core::mem::MaybeUninit::uninit());
                    dirty_stack(fill);
                    unsafe {
                        core::ptr::write_bytes(slot.as_mut_ptr() as *mut u8, fill, core::mem::size_of::<T::Output>());
                        slot.as_mut_ptr().write(t.$as_());
                        bytemuck::bytes_of(&*slot.as_ptr()).to_vec()
                    }
                },
                decode: |b| to_words(&T::$from(bytemuck::pod_read_unaligned::<T::Output>(b))),
                there_and_back: |v| to_words(&T::$from(from_words::<T>(v).$as_())),
                write: |x, v| w(x).write(&from_words::<T>(v)),
                write_raw: |x, v| w(x).$write_fn(&from_words::<T>(v).$as_()),
                write_via_trait: |x, v| <T as $Write>::$write_fn(&from_words::<T>(v), w(x)),
                write_slice: |x, v| w(x).write(many::<T>(v).as_slice()),
                write_slice_deprecated: $dep,
                write_iter: |x, v| w(x).write_iter(many::<T>(v)),
                // An iterator without a useful size hint that uses a Writer itself.
                write_iter_lazy: |x, v| {
                    let mut i = 0;
                    let mut inner = crevice::$m::Writer::new(Sink::new());
                    w(x).write_iter(std::iter::from_fn(|| {
                        i += 1;
                        let y = from_words::<T>(v.get(i - 1)?);
                        let _ = inner.write(&[1u32, 2, 3][..i % 4]);
                        let _ = inner.write(std::slice::from_ref(&y));
                        let _ = inner.write_iter(v[..i % 2].iter().map(|z| from_words::<T>(z)));
                        Some(y)
                    }))
                },
                write_iter_goes_on: |x, v| {
                    let mut i = 0;
                    w(x).write_iter(std::iter::from_fn(|| {
                        i += 1;
                        match i - 1 {
                            k if k < v.len() => Some(from_words::<T>(&v[k])),
                            k if k == v.len() => None,
                            // As a channel would that has received more meanwhile.
                            k if k < v.len() + 3 => Some(from_words::<T>(&vec![1; crate::model::kinds(&T::schema()).len()])),
                            _ => None,
                        }
                    }))
                },
                write_iter_panics: |x, v| {
                    let mut i = 0;
                    let w = w(x);
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        w.write_iter(std::iter::from_fn(|| {
                            i += 1;
                            match v.get(i - 1) {
                                Some(y) => Some(from_words::<T>(y)),
                                None => std::panic::panic_any(Enough),
                            }
                        }))
                    }))
                    .unwrap_or_else(|p| if p.is::<Enough>() { Ok(usize::MAX) } else { std::panic::resume_unwind(p) })
                },
                write_iter_converted: |x, v| w(x).write_iter(conv::<T>(v)),
                write_slice_converted: |x, v| w(x).write(conv::<T>(v).as_slice()),
                write_custom_slice: |x, v| {
                    let b: Vec<Batch<T>> = v.chunks(2).map(|c| Batch(many::<T>(c))).collect();
                    w(x).write(b.as_slice())
                },
                write_custom_iter: |x, v| w(x).write_iter(v.chunks(2).map(|c| Batch(many::<T>(c)))),
                sizer_add: |x| s(x).add::<T>(),
                size_value: |v| from_words::<T>(v).$size(),
                size_slice: |v| many::<T>(v).as_slice().$size(),
                size_converted: |v| from_words::<T>(v).$as_().$size(),
                size_custom: |v| Batch(many::<T>(v)).$size(),
                size_custom_slice: |v| {
                    let b: Vec<Batch<T>> = v.chunks(2).map(|c| Batch(many::<T>(c))).collect();
                    b.as_slice().$size()
                },
                dynamic: $dynamic,
                dynamic_write: $dw,
                dynamic_write_slice: $dws,
                dynamic_sizer: $ds,
            }
        }
    };
}

fn w140(w: &mut AnyWriter) -> &mut crevice::std140::Writer<Sink> {
    match w {
        AnyWriter::W140(w) => w,
        _ => panic!("harness: layout mix-up"),
    }
}

#[inline(never)]
fn dirty_stack(fill: u8) {
    let a = std::hint::black_box([fill; 16384]);
    std::hint::black_box(&a);
}

layout_ops!(
    ops140, std140, Std140, AsStd140, WriteStd140, as_std140, from_std140, write_std140,
    std140_size, std140_size_static, W140, S140,
    Some(|x, v| {
        #[allow(deprecated)]
        w140(x).write_slice(many::<T>(v).as_slice())
    }),
    Some(|v| {
        use crevice::std140::DynamicUniform as D;
        let d = D(from_words::<T>(v));
        let o = d.as_std140();
        let b = o.as_bytes().to_vec();
        (
            <<D<T> as AsStd140>::Output as Std140>::ALIGNMENT,
            core::mem::size_of_val(&o),
            D::<T>::std140_size_static(),
            b,
            to_words(&D::<T>::from_std140(o).0),
        )
    }),
    Some(|x, v| w140(x).write(&crevice::std140::DynamicUniform(from_words::<T>(v)))),
    Some(|x, v| {
        let d: Vec<_> = many::<T>(v).into_iter().map(crevice::std140::DynamicUniform).collect();
        w140(x).write(d.as_slice())
    }),
    Some(|x| match x {
        AnySizer::S140(s) => s.add::<crevice::std140::DynamicUniform<T>>(),
        _ => panic!("harness: layout mix-up"),
    })
);
layout_ops!(
    ops430, std430, Std430, AsStd430, WriteStd430, as_std430, from_std430, write_std430,
    std430_size, std430_size_static, W430, S430, None, None, None, None, None
);

pub fn glsl_prim<T: crevice::glsl::Glsl>() -> GlslInfo {
    GlslInfo { name: T::NAME, definition: None, fields: None }
}
pub fn glsl_struct<T: crevice::glsl::GlslStruct>() -> GlslInfo {
    GlslInfo {
        name: T::NAME,
        definition: Some(T::glsl_definition()),
        fields: Some(T::FIELDS.iter().map(|f| (f.ty.to_string(), f.name.to_string())).collect()),
    }
}

#[derive(Default)]
pub struct Reg {
    pub ops: Vec<Ops>,
    pub huge: Vec<Huge>,
    /// Writes 256 KiB of anything.
    pub chunk: Option<fn(&mut AnyWriter) -> Res>,
}

/// A type too large to be instantiated; only its static size matters.
pub struct Huge {
    pub name: String,
    pub std: Std,
    pub size: u128,
    pub align: u128,
    pub add: fn(&mut AnySizer) -> usize,
}

impl Reg {
    pub fn both<T: Host + crevice::std140::AsStd140 + crevice::std430::AsStd430>(
        &mut self,
        case: usize,
        name: &str,
        glsl: Option<fn() -> GlslInfo>,
    ) {
        self.only140::<T>(case, name, glsl);
        self.only430::<T>(case, name, glsl);
    }
    pub fn only140<T: Host + crevice::std140::AsStd140>(&mut self, case: usize, name: &str, glsl: Option<fn() -> GlslInfo>) {
        self.ops.push(ops140::<T>(name, case, glsl.map(|f| f())));
    }
    pub fn only430<T: Host + crevice::std430::AsStd430>(&mut self, case: usize, name: &str, glsl: Option<fn() -> GlslInfo>) {
        self.ops.push(ops430::<T>(name, case, glsl.map(|f| f())));
    }
}

/// A type of any size: only ever measured, never created.
#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Big<const N: usize, const A: usize>(#[allow(dead_code)] [u8; N]);
unsafe impl<const N: usize, const A: usize> bytemuck::Zeroable for Big<N, A> {}
unsafe impl<const N: usize, const A: usize> bytemuck::Pod for Big<N, A> {}
unsafe impl<const N: usize, const A: usize> crevice::std140::Std140 for Big<N, A> {
    const ALIGNMENT: usize = A;
}
unsafe impl<const N: usize, const A: usize> crevice::std430::Std430 for Big<N, A> {
    const ALIGNMENT: usize = A;
}

impl Reg {
    fn big<const N: usize, const A: usize>(&mut self) {
        let name = format!("Big<{N}, {A}>");
        self.huge140::<Big<N, A>>(&name, N as u128, A as u128);
        self.huge430::<Big<N, A>>(&name, N as u128, A as u128);
    }
    pub fn huge_types(&mut self) {
        self.chunk = Some(|w| {
            static CHUNK: Big<0x4_0000, 4> = Big([0x5a; 0x4_0000]);
            match w {
                AnyWriter::W140(w) => w.write_std140(&CHUNK),
                AnyWriter::W430(w) => w.write_std430(&CHUNK),
            }
        });
        self.big::<0x4000_0000, 4>();
        self.big::<0x7fff_ffff, 16>();
        self.big::<0x8000_0000, 256>();
        self.big::<0xffff_fff4, 16>();
        self.big::<0xffff_ffff, 8>();
        self.big::<0x1_0000_0001, 4>();
        self.big::<0x3_2345_6789, 32>();
        self.big::<0x100_0000_0010, 16>();
        self.big::<0x7fff_ffff_fffd, 4>();
        self.big::<100_001, 65536>();
        self.big::<70_000, 4>();
        self.big::<65_535, 16>();
    }
    pub fn huge140<T: crevice::std140::AsStd140>(&mut self, name: &str, size: u128, align: u128) {
        self.huge.push(Huge {
            name: name.into(),
            std: Std::Std140,
            size,
            align,
            add: |s| match s {
                AnySizer::S140(s) => s.add::<T>(),
                _ => panic!("harness: layout mix-up"),
            },
        });
    }
    pub fn huge430<T: crevice::std430::AsStd430>(&mut self, name: &str, size: u128, align: u128) {
        self.huge.push(Huge {
            name: name.into(),
            std: Std::Std430,
            size,
            align,
            add: |s| match s {
                AnySizer::S430(s) => s.add::<T>(),
                _ => panic!("harness: layout mix-up"),
            },
        });
    }
    pub fn as_bytes(&mut self, name: &str, std: Std, f: fn(&[u64]) -> Vec<u8>) {
        let o = self.ops.iter_mut().rev().find(|o| o.name == name && o.std == std);
        o.unwrap_or_else(|| panic!("harness: no type {name}")).as_bytes = Some(f);
    }
    pub fn find(&self, name: &str, std: Std) -> &Ops {
        self.ops
            .iter()
            .find(|o| o.name == name && o.std == std)
            .unwrap_or_else(|| panic!("harness: no type {name} in {}", std.name()))
    }
}
