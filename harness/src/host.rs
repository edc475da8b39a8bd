//! `Host`: a Rust type whose scalar components can be set and read one by one
//! through the math library's own accessors (never through crevice).

use crate::model::{Kind, Prim, Ty};

pub struct Words<'a> {
    pub w: &'a [u64],
    pub i: usize,
}
impl<'a> Words<'a> {
    pub fn new(w: &'a [u64]) -> Self {
        Words { w, i: 0 }
    }
    pub fn next(&mut self) -> u64 {
        let v = self.w[self.i];
        self.i += 1;
        v
    }
}

pub trait Host: Sized {
    fn schema() -> Ty;
    fn from_words(w: &mut Words) -> Self;
    fn to_words(&self, out: &mut Vec<u64>);
}

pub fn from_words<T: Host>(w: &[u64]) -> T {
    let mut c = Words::new(w);
    let t = T::from_words(&mut c);
    assert_eq!(c.i, w.len(), "harness: word count");
    t
}
pub fn to_words<T: Host>(t: &T) -> Vec<u64> {
    let mut v = Vec::new();
    t.to_words(&mut v);
    v
}

/// Scalars with a bit representation.
pub trait Comp: Copy {
    const KIND: Kind;
    fn from_bits(w: u64) -> Self;
    fn bits(self) -> u64;
}
impl Comp for f32 {
    const KIND: Kind = Kind::F32;
    fn from_bits(w: u64) -> Self {
        f32::from_bits(w as u32)
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}
impl Comp for f64 {
    const KIND: Kind = Kind::F64;
    fn from_bits(w: u64) -> Self {
        f64::from_bits(w)
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}
impl Comp for i32 {
    const KIND: Kind = Kind::I32;
    fn from_bits(w: u64) -> Self {
        w as u32 as i32
    }
    fn bits(self) -> u64 {
        self as u32 as u64
    }
}
impl Comp for u32 {
    const KIND: Kind = Kind::U32;
    fn from_bits(w: u64) -> Self {
        w as u32
    }
    fn bits(self) -> u64 {
        self as u64
    }
}
impl Comp for bool {
    const KIND: Kind = Kind::Bool;
    fn from_bits(w: u64) -> Self {
        w & 1 != 0
    }
    fn bits(self) -> u64 {
        self as u64
    }
}
impl Comp for crevice::std140::Bool {
    const KIND: Kind = Kind::Bool;
    fn from_bits(w: u64) -> Self {
        // Bool is Pod; build it without going through crevice's conversion.
        bytemuck::cast((w & 1) as u32)
    }
    fn bits(self) -> u64 {
        let w: u32 = bytemuck::cast(self);
        (w != 0) as u64
    }
}

macro_rules! scalars { ($($t:ty),*) => { $(
    impl Host for $t {
        fn schema() -> Ty { Ty::Prim(Prim::Scalar(<$t as Comp>::KIND)) }
        fn from_words(w: &mut Words) -> Self { <$t as Comp>::from_bits(w.next()) }
        fn to_words(&self, out: &mut Vec<u64>) { out.push(self.bits()) }
    }
)* } }
scalars!(f32, f64, i32, u32, bool, crevice::std140::Bool);

macro_rules! vecs { ($( $n:literal [$($t:ty),*] [$comp:ty] $fs:tt )*) => { $(vec_group!($n [$($t),*] [$comp] $fs);)* } }
macro_rules! vec_group { ($n:literal [$($t:ty),*] $comp:tt $fs:tt) => { $(vec_one!($t, $n, $comp, $fs);)* } }
macro_rules! vec_one { ($t:ty, $n:literal, [$comp:ty], { $($f:ident),* }) => {
    impl Host for $t {
        fn schema() -> Ty { Ty::Prim(Prim::Vec(<$comp as Comp>::KIND, $n)) }
        fn from_words(w: &mut Words) -> Self {
            $(let $f = <$comp as Comp>::from_bits(w.next());)*
            mk!($t { $($f),* })
        }
        fn to_words(&self, out: &mut Vec<u64>) { $(out.push(self.$f.bits());)* }
    }
} }
macro_rules! mk { ($t:ty { $($f:ident),* }) => { { type X = $t; X { $($f: $f),* } } } }

macro_rules! lib_vecs { ($lib:ident, $($comp:ty),*) => { $(
    vecs! {
        2 [$lib::Vector2<$comp>, $lib::Point2<$comp>] [$comp] { x, y }
        3 [$lib::Vector3<$comp>, $lib::Point3<$comp>] [$comp] { x, y, z }
        4 [$lib::Vector4<$comp>] [$comp] { x, y, z, w }
    }
)* } }
lib_vecs!(mint, f32, f64, i32, u32, bool);
lib_vecs!(cgmath, f32, f64, i32, u32, bool);

vecs! {
    2 [glam::Vec2] [f32] { x, y }
    3 [glam::Vec3] [f32] { x, y, z }
    2 [glam::DVec2] [f64] { x, y }
    3 [glam::DVec3] [f64] { x, y, z }
    4 [glam::DVec4] [f64] { x, y, z, w }
    2 [glam::IVec2] [i32] { x, y }
    3 [glam::IVec3] [i32] { x, y, z }
    4 [glam::IVec4] [i32] { x, y, z, w }
    2 [glam::UVec2] [u32] { x, y }
    3 [glam::UVec3] [u32] { x, y, z }
    4 [glam::UVec4] [u32] { x, y, z, w }
}
impl Host for glam::Vec4 {
    fn schema() -> Ty {
        Ty::Prim(Prim::Vec(Kind::F32, 4))
    }
    fn from_words(w: &mut Words) -> Self {
        let v = [w.next(), w.next(), w.next(), w.next()].map(<f32 as Comp>::from_bits);
        glam::Vec4::from_array(v)
    }
    fn to_words(&self, out: &mut Vec<u64>) {
        out.extend(self.to_array().map(|x| x.bits()))
    }
}

macro_rules! na { ($($comp:ty),*) => { $(
    na!(@ 2, $comp, nalgebra::Vector2<$comp>, nalgebra::Point2<$comp>);
    na!(@ 3, $comp, nalgebra::Vector3<$comp>, nalgebra::Point3<$comp>);
    na!(@ 4, $comp, nalgebra::Vector4<$comp>);
)* };
(@ $n:literal, $comp:ty, $($t:ty),*) => { $(
    impl Host for $t {
        fn schema() -> Ty { Ty::Prim(Prim::Vec(<$comp as Comp>::KIND, $n)) }
        fn from_words(w: &mut Words) -> Self {
            let a: [$comp; $n] = std::array::from_fn(|_| <$comp as Comp>::from_bits(w.next()));
            <$t>::from(a)
        }
        fn to_words(&self, out: &mut Vec<u64>) { for i in 0..$n { out.push(self[i].bits()) } }
    }
)* } }
na!(f32, f64, i32, u32, bool);

macro_rules! na_mat { ($($n:literal $t:ty, $comp:ty;)*) => { $(
    impl Host for $t {
        fn schema() -> Ty { Ty::Prim(Prim::Mat(<$comp as Comp>::KIND, $n)) }
        fn from_words(w: &mut Words) -> Self {
            let mut m = <$t>::zeros();
            for c in 0..$n { for r in 0..$n { m[(r, c)] = <$comp as Comp>::from_bits(w.next()); } }
            m
        }
        fn to_words(&self, out: &mut Vec<u64>) { for c in 0..$n { for r in 0..$n { out.push(self[(r, c)].bits()) } } }
    }
)* } }
na_mat! { 2 nalgebra::Matrix2<f32>, f32; 3 nalgebra::Matrix3<f32>, f32; 4 nalgebra::Matrix4<f32>, f32;
          2 nalgebra::Matrix2<f64>, f64; 3 nalgebra::Matrix3<f64>, f64; 4 nalgebra::Matrix4<f64>, f64; }

macro_rules! glam_mat { ($($n:literal $t:ty, $v:ty, $comp:ty, ($($col:ident),*);)*) => { $(
    impl Host for $t {
        fn schema() -> Ty { Ty::Prim(Prim::Mat(<$comp as Comp>::KIND, $n)) }
        fn from_words(w: &mut Words) -> Self {
            $(let $col = <$v as Host>::from_words(w);)*
            <$t>::from_cols($($col),*)
        }
        fn to_words(&self, out: &mut Vec<u64>) { for c in 0..$n { let v = self.col(c); for r in 0..$n { out.push(v[r].bits()) } } }
    }
)* } }
glam_mat! {
    2 glam::Mat2, glam::Vec2, f32, (a, b);
    3 glam::Mat3, glam::Vec3, f32, (a, b, c);
    4 glam::Mat4, glam::Vec4, f32, (a, b, c, d);
    2 glam::DMat2, glam::DVec2, f64, (a, b);
    3 glam::DMat3, glam::DVec3, f64, (a, b, c);
    4 glam::DMat4, glam::DVec4, f64, (a, b, c, d);
}

macro_rules! field_mat { ($($n:literal $t:ty, $v:ty, $comp:ty, ($($f:ident),*);)*) => { $(
    impl Host for $t {
        fn schema() -> Ty { Ty::Prim(Prim::Mat(<$comp as Comp>::KIND, $n)) }
        fn from_words(w: &mut Words) -> Self {
            $(let $f = <$v as Host>::from_words(w);)*
            mk!($t { $($f),* })
        }
        fn to_words(&self, out: &mut Vec<u64>) { $(Host::to_words(&self.$f, out);)* }
    }
)* } }
field_mat! {
    2 mint::ColumnMatrix2<f32>, mint::Vector2<f32>, f32, (x, y);
    3 mint::ColumnMatrix3<f32>, mint::Vector3<f32>, f32, (x, y, z);
    4 mint::ColumnMatrix4<f32>, mint::Vector4<f32>, f32, (x, y, z, w);
    2 mint::ColumnMatrix2<f64>, mint::Vector2<f64>, f64, (x, y);
    3 mint::ColumnMatrix3<f64>, mint::Vector3<f64>, f64, (x, y, z);
    4 mint::ColumnMatrix4<f64>, mint::Vector4<f64>, f64, (x, y, z, w);
    2 cgmath::Matrix2<f32>, cgmath::Vector2<f32>, f32, (x, y);
    3 cgmath::Matrix3<f32>, cgmath::Vector3<f32>, f32, (x, y, z);
    4 cgmath::Matrix4<f32>, cgmath::Vector4<f32>, f32, (x, y, z, w);
    2 cgmath::Matrix2<f64>, cgmath::Vector2<f64>, f64, (x, y);
    3 cgmath::Matrix3<f64>, cgmath::Vector3<f64>, f64, (x, y, z);
    4 cgmath::Matrix4<f64>, cgmath::Vector4<f64>, f64, (x, y, z, w);
}

// crevice's own GPU-side types can be used as values too.
macro_rules! crevice_types { ($m:ident) => {
    vecs! {
        2 [crevice::$m::Vec2] [f32] { x, y }
        3 [crevice::$m::Vec3] [f32] { x, y, z }
        4 [crevice::$m::Vec4] [f32] { x, y, z, w }
        2 [crevice::$m::DVec2] [f64] { x, y }
        3 [crevice::$m::DVec3] [f64] { x, y, z }
        4 [crevice::$m::DVec4] [f64] { x, y, z, w }
        2 [crevice::$m::IVec2] [i32] { x, y }
        3 [crevice::$m::IVec3] [i32] { x, y, z }
        4 [crevice::$m::IVec4] [i32] { x, y, z, w }
        2 [crevice::$m::UVec2] [u32] { x, y }
        3 [crevice::$m::UVec3] [u32] { x, y, z }
        4 [crevice::$m::UVec4] [u32] { x, y, z, w }
        2 [crevice::$m::BVec2] [crevice::$m::Bool] { x, y }
        3 [crevice::$m::BVec3] [crevice::$m::Bool] { x, y, z }
        4 [crevice::$m::BVec4] [crevice::$m::Bool] { x, y, z, w }
    }
    crevice_types!(@ $m 2 Mat2 Vec2 [f32] (x, y));
    crevice_types!(@ $m 3 Mat3 Vec3 [f32] (x, y, z));
    crevice_types!(@ $m 4 Mat4 Vec4 [f32] (x, y, z, w));
    crevice_types!(@ $m 2 DMat2 DVec2 [f64] (x, y));
    crevice_types!(@ $m 3 DMat3 DVec3 [f64] (x, y, z));
    crevice_types!(@ $m 4 DMat4 DVec4 [f64] (x, y, z, w));
};
(@ $m:ident $n:literal $t:ident $v:ident [$comp:ty] ($($f:ident),*)) => {
    impl Host for crevice::$m::$t {
        fn schema() -> Ty { Ty::Prim(Prim::Mat(<$comp as Comp>::KIND, $n)) }
        fn from_words(w: &mut Words) -> Self {
            let mut v: crevice::$m::$t = bytemuck::Zeroable::zeroed();
            $(v.$f = <crevice::$m::$v as Host>::from_words(w);)*
            v
        }
        fn to_words(&self, out: &mut Vec<u64>) { $(Host::to_words(&self.$f, out);)* }
    }
} }
crevice_types!(std140);
crevice_types!(std430);

impl<T: Host> Host for crevice::std140::DynamicUniform<T> {
    fn schema() -> Ty {
        Ty::Dyn(Box::new(T::schema()))
    }
    fn from_words(w: &mut Words) -> Self {
        crevice::std140::DynamicUniform(T::from_words(w))
    }
    fn to_words(&self, out: &mut Vec<u64>) {
        self.0.to_words(out)
    }
}

/// A user-defined type that implements the layout traits by hand.
#[derive(Debug, Clone, Copy)]
#[repr(transparent)]
pub struct Custom<const N: usize, const A: usize>(pub [u32; N]);
unsafe impl<const N: usize, const A: usize> bytemuck::Zeroable for Custom<N, A> {}
unsafe impl<const N: usize, const A: usize> bytemuck::Pod for Custom<N, A> {}
unsafe impl<const N: usize, const A: usize> crevice::std140::Std140 for Custom<N, A> {
    const ALIGNMENT: usize = A;
}
unsafe impl<const N: usize, const A: usize> crevice::std430::Std430 for Custom<N, A> {
    const ALIGNMENT: usize = A;
}
impl<const N: usize, const A: usize> Host for Custom<N, A> {
    fn schema() -> Ty {
        Ty::Prim(Prim::Custom { words: N as u32, align: A as u32 })
    }
    fn from_words(w: &mut Words) -> Self {
        Custom(std::array::from_fn(|_| w.next() as u32))
    }
    fn to_words(&self, out: &mut Vec<u64>) {
        out.extend(self.0.iter().map(|x| *x as u64))
    }
}

/// The same without anything the layout traits do not require.
#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Raw<const N: usize, const A: usize>(pub [u32; N]);
unsafe impl<const N: usize, const A: usize> bytemuck::Zeroable for Raw<N, A> {}
unsafe impl<const N: usize, const A: usize> bytemuck::Pod for Raw<N, A> {}
unsafe impl<const N: usize, const A: usize> crevice::std140::Std140 for Raw<N, A> {
    const ALIGNMENT: usize = A;
}
unsafe impl<const N: usize, const A: usize> crevice::std430::Std430 for Raw<N, A> {
    const ALIGNMENT: usize = A;
}

/// User types with a conversion of their own: in memory they are nothing like what
/// they become on the GPU.
macro_rules! hand { ($($name:ident [$inner:ty] ($prim:expr);)*) => { $(
    pub struct $name {
        pub junk: u8,
        pub words: Vec<u64>,
    }
    impl Host for $name {
        fn schema() -> Ty { Ty::Prim($prim) }
        fn from_words(w: &mut Words) -> Self {
            let n = crate::model::kinds(&Self::schema()).len();
            let mut words: Vec<u64> = (0..n).map(|_| !w.next()).collect();
            words.reverse();
            $name { junk: 0xee, words }
        }
        fn to_words(&self, out: &mut Vec<u64>) { out.extend(self.words.iter().rev().map(|w| !*w)) }
    }
    impl $name {
        fn inner(&self) -> $inner {
            let mut v = vec![];
            self.to_words(&mut v);
            from_words::<$inner>(&v)
        }
        fn make(i: $inner) -> Self {
            from_words::<Self>(&to_words(&i))
        }
    }
    impl crevice::std140::AsStd140 for $name {
        type Output = <$inner as crevice::std140::AsStd140>::Output;
        fn as_std140(&self) -> Self::Output { crevice::std140::AsStd140::as_std140(&self.inner()) }
        fn from_std140(v: Self::Output) -> Self { Self::make(crevice::std140::AsStd140::from_std140(v)) }
    }
    impl crevice::std430::AsStd430 for $name {
        type Output = <$inner as crevice::std430::AsStd430>::Output;
        fn as_std430(&self) -> Self::Output { crevice::std430::AsStd430::as_std430(&self.inner()) }
        fn from_std430(v: Self::Output) -> Self { Self::make(crevice::std430::AsStd430::from_std430(v)) }
    }
)* } }
hand! {
    HandF32 [f32] (Prim::Scalar(Kind::F32));
    HandBool [bool] (Prim::Scalar(Kind::Bool));
    HandVec3 [mint::Vector3<f32>] (Prim::Vec(Kind::F32, 3));
    HandBVec2 [mint::Vector2<bool>] (Prim::Vec(Kind::Bool, 2));
    HandDVec3 [mint::Vector3<f64>] (Prim::Vec(Kind::F64, 3));
    HandMat2 [mint::ColumnMatrix2<f32>] (Prim::Mat(Kind::F32, 2));
    HandMat3 [mint::ColumnMatrix3<f32>] (Prim::Mat(Kind::F32, 3));
}

/// Implements `Host` for the type that a layout derive generated for `$name`.
#[macro_export]
macro_rules! host_out {
    ($name:ident, $out:ty, $Trait:path, $as_:ident, $from:ident) => {
        impl $crate::host::Host for $out {
            fn schema() -> $crate::model::Ty {
                <$name as $crate::host::Host>::schema()
            }
            fn from_words(w: &mut $crate::host::Words) -> Self {
                <$name as $Trait>::$as_(&<$name as $crate::host::Host>::from_words(w))
            }
            fn to_words(&self, out: &mut ::std::vec::Vec<u64>) {
                $crate::host::Host::to_words(&<$name as $Trait>::$from(*self), out);
            }
        }
    };
}

/// Implements `Host` for a generated struct.
#[macro_export]
macro_rules! host {
    ($name:ident { $($f:ident as $fname:literal : $t:ty),* $(,)? }) => {
        impl $crate::host::Host for $name {
            fn schema() -> $crate::model::Ty {
                $crate::model::Ty::Struct {
                    name: ::std::string::String::from(stringify!($name).trim_start_matches("r#")),
                    fields: ::std::vec![$((::std::string::String::from($fname), <$t as $crate::host::Host>::schema())),*],
                }
            }
            #[allow(unused_variables)]
            fn from_words(w: &mut $crate::host::Words) -> Self {
                $name { $($f: <$t as $crate::host::Host>::from_words(w)),* }
            }
            #[allow(unused_variables)]
            fn to_words(&self, out: &mut ::std::vec::Vec<u64>) {
                $($crate::host::Host::to_words(&self.$f, out);)*
            }
        }
    };
}
