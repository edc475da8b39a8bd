//! The properties that are decided at run time, each as strategy + oracle.

use crate::model::{self, Kind, Prim, Std, Ty};
use crate::ops::{AnySizer, AnyWriter, Ops, Reg};
use crate::run::{Run, Stats};
use crate::sink::{Fault, Sink};
use crate::values;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

pub fn run(prop: &str, run: &mut Run) {
    match prop {
        "C01" => layouts(run, Std::Std140),
        "C02" => layouts(run, Std::Std430),
        "C03" => padding(run),
        "C04" => round_trip(run),
        "C05" => builtin(run),
        "C06" => libraries(run),
        "C07" => booleans(run),
        "C08" => writer(run),
        "C09" => batches(run),
        "C10" => sizer(run),
        "C11" => sizes(run),
        "C12" => faults(run),
        "C13" => dynamic(run),
        "C15" => glsl_text(run),
        "C16" => smoke(run),
        "C20" => arrays(run),
        "C21" => readback(run),
        "dump" => dump(run),
        _ => panic!("harness: unknown property {prop}"),
    }
}

/// One value of one type.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct One {
    pub ty: String,
    pub std: Std,
    pub raw: Vec<u64>,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn whex(w: &[u64]) -> Vec<String> {
    w.iter().map(|x| format!("{x:#x}")).collect()
}

fn one(o: &Ops) -> BoxedStrategy<One> {
    let (ty, std) = (o.name.clone(), o.std);
    values::raw(o.kinds.len()).prop_map(move |raw| One { ty: ty.clone(), std, raw }).boxed()
}

/// Runs `check` for `cases` values of each type that `pick` selects.
fn each_type(run: &mut Run, pick: impl Fn(&Ops) -> bool, check: impl Fn(&Ops, &[u64], &mut Stats) -> Result<(), String> + Copy) {
    let cases = run.cases;
    let idx: Vec<usize> = (0..run.reg.ops.len()).filter(|i| pick(&run.reg.ops[*i])).collect();
    for i in idx {
        let o = &run.reg.ops[i];
        classify_type(o, &mut run.stats.borrow_mut());
        let tag = format!("{} {}", o.name, o.std.name());
        let case = o.case;
        run.forall(
            &tag,
            cases,
            one(o),
            move |reg, i: &One, st| {
                let o = reg.find(&i.ty, i.std);
                let words = model::stretch(&i.raw, &o.kinds);
                if nontrivial_words(&words) {
                    st.nontrivial(
                        &(&o.ty, o.std, &words),
                        || json!({"type": o.name, "schema": show(&o.ty), "layout": o.std.name(), "components": whex(&words)}),
                    );
                }
                check(o, &words, st).map_err(|e| format!("{} in {}: {} (components {:?}; schema {})", o.name, o.std.name(), e, whex(&words), show(&o.ty)))
            },
            move |_| vec![case],
        );
    }
}

/// A value is non-trivial if it has two different non-zero components, or one
/// non-zero component when it has only one.
fn nontrivial_words(w: &[u64]) -> bool {
    let nz: Vec<u64> = w.iter().copied().filter(|x| *x != 0).collect();
    if w.len() == 1 {
        nz.len() == 1
    } else {
        nz.iter().any(|x| *x != nz[0]) || (w.len() < 5 && !nz.is_empty())
    }
}

pub fn show(t: &Ty) -> String {
    match t {
        Ty::Prim(p) => p.glsl(),
        Ty::Struct { name, fields } => format!(
            "{} {{ {} }}",
            name,
            fields.iter().map(|(n, f)| format!("{}: {}", n, show(f))).collect::<Vec<_>>().join(", ")
        ),
        Ty::Dyn(t) => format!("dynamic<{}>", show(t)),
    }
}

fn is_struct(o: &Ops) -> bool {
    matches!(o.ty, Ty::Struct { .. })
}

fn classify_type(o: &Ops, st: &mut Stats) {
    st.class(format!("types {}", o.std.name()));
    if let Ty::Struct { fields, .. } = &o.ty {
        st.class(format!("depth {}", model::depth(&o.ty)));
        st.class(match fields.len() {
            0 => "fields 0".to_string(),
            1 => "fields 1".into(),
            2..=4 => "fields 2-4".into(),
            5..=9 => "fields 5-9".into(),
            10..=19 => "fields 10-19".into(),
            _ => "fields 20+".into(),
        });
        st.class(match o.model.size {
            0..=255 => "size <256",
            256..=1023 => "size 256-1023",
            1024..=4095 => "size 1K-4K",
            _ => "size 4K+",
        });
        let cov = model::covered(&o.comps, o.model.size);
        if cov.iter().any(|c| !c) {
            st.class("has padding");
        }
        if model::contains(&o.ty, &|t| matches!(t, Ty::Dyn(_))) {
            st.class("has DynamicUniform");
        }
        if model::contains(&o.ty, &|t| matches!(t, Ty::Prim(Prim::Custom { .. }))) {
            st.class("has custom type");
        }
        for w in fields.windows(2) {
            if let (Ty::Prim(a), Ty::Prim(b)) = (&w[0].1, &w[1].1) {
                st.class(format!("pair {} {}", a.glsl(), b.glsl()));
            }
        }
    }
}

fn check_shape(o: &Ops) -> Result<(), String> {
    if o.align != o.model.align {
        return Err(format!("alignment is {}, must be {}", o.align, o.model.align));
    }
    if !o.align.is_power_of_two() {
        return Err(format!("alignment {} is not a power of two", o.align));
    }
    if o.size_of != o.model.size || o.size_static != o.model.size {
        return Err(format!("size is {} (size query: {}), must be {}", o.size_of, o.size_static, o.model.size));
    }
    Ok(())
}

fn check_components(o: &Ops, words: &[u64], b: &[u8]) -> Result<(), String> {
    if b.len() != o.model.size {
        return Err(format!("encoded length is {}, must be {}", b.len(), o.model.size));
    }
    for (c, w) in o.comps.iter().zip(words) {
        let got = model::read_raw(c, b);
        if got != *w {
            return Err(format!(
                "component {} must be at byte {} with bits {:#x}; found {:#x} there; bytes {}",
                c.path,
                c.offset,
                w,
                got,
                hex(b)
            ));
        }
    }
    Ok(())
}

/// The bytes, which must not depend on which `as_bytes` is meant.
fn encoded(o: &Ops, w: &[u64]) -> Result<Vec<u8>, String> {
    let b = (o.encode)(w);
    match o.as_bytes.map(|f| f(w)) {
        Some(x) if x != b => Err(format!("as_bytes() gives {} without Std140/Std430 in scope, and {} with it", hex(&x), hex(&b))),
        _ => Ok(b),
    }
}

// C01, C02
fn layouts(run: &mut Run, std: Std) {
    each_type(
        run,
        |o| o.std == std && is_struct(o),
        |o, w, _| {
            check_shape(o)?;
            check_components(o, w, &encoded(o, w)?)
        },
    );
}

// C05
fn builtin(run: &mut Run) {
    each_type(
        run,
        |o| !is_struct(o),
        |o, w, _| {
            check_shape(o)?;
            check_components(o, w, &encoded(o, w)?)
        },
    );
}

// C16: a program that compiled must also work.
fn smoke(run: &mut Run) {
    each_type(
        run,
        |_| true,
        |o, w, _| {
            check_shape(o)?;
            check_components(o, w, &encoded(o, w)?)?;
            if (o.there_and_back)(w) != w {
                return Err("value does not round-trip".into());
            }
            Ok(())
        },
    );
}

// C03
fn padding(run: &mut Run) {
    each_type(
        run,
        |_| true,
        |o, w, st| {
            let b = encoded(o, w)?;
            // Which bytes are components follows from the layout. If the type is
            // laid out otherwise (other properties' business), it is what changes
            // with the components.
            let cov = if check_components(o, w, &b).is_ok() {
                model::covered(&o.comps, b.len())
            } else {
                let ones: Vec<u64> = o.kinds.iter().map(|k| k.canon(u64::MAX)).collect();
                let x = (o.encode)(&vec![0; o.kinds.len()]);
                let y = (o.encode)(&ones);
                x.iter().zip(&y).map(|(x, y)| x != y).collect()
            };
            if cov.iter().any(|c| !c) {
                st.class("values of types with padding");
            }
            for (i, c) in cov.iter().enumerate() {
                if !c && b[i] != 0 {
                    return Err(format!("padding byte {} is {:#04x}; bytes {}", i, b[i], hex(&b)));
                }
            }
            for fill in [0xa5u8, 0xff, 0x00] {
                let d = (o.encode_dirty)(w, fill);
                if d != b {
                    return Err(format!(
                        "encoding is not deterministic (memory previously {:#04x}): {} then {}",
                        fill,
                        hex(&b),
                        hex(&d)
                    ));
                }
            }
            // Through a Writer, at an odd position.
            let sink = Sink::new();
            let mut wr = AnyWriter::new(o.std, &sink);
            let r1 = (o.write)(&mut wr, w).map_err(|e| e.to_string())?;
            let mid = sink.len();
            let r2 = (o.write)(&mut wr, w).map_err(|e| e.to_string())?;
            let all = sink.bytes();
            if r1 != 0 || r2 < mid || all.len() != r2 + b.len() || all[..mid] != b[..] || all[r2..] != b[..] {
                return Err(format!("two writes of the value gave {} for bytes {}", hex(&all), hex(&b)));
            }
            if all[mid..r2].iter().any(|x| *x != 0) {
                return Err(format!("Writer padding is not zero: {}", hex(&all)));
            }
            Ok(())
        },
    );
}

// C04
fn round_trip(run: &mut Run) {
    each_type(
        run,
        |_| true,
        |o, w, _| {
            let a = (o.there_and_back)(w);
            if a != w {
                return Err(format!("converted there and back: {:?}", whex(&a)));
            }
            let b = (o.encode)(w);
            let a = (o.decode)(&b);
            if a != w {
                return Err(format!("converted there and back through bytes {}: {:?}", hex(&b), whex(&a)));
            }
            Ok(())
        },
    );
}

// C06
fn libraries(run: &mut Run) {
    let cases = run.cases;
    for i in 0..run.reg.ops.len() {
        let o = &run.reg.ops[i];
        // The program registers, for every type of another library, a twin
        // built from mint types with the name `mint:<name>`.
        let twin_name = format!("mint:{}", o.name);
        let Some(twin) = run.reg.ops.iter().find(|t| t.name == twin_name && t.std == o.std) else {
            continue;
        };
        classify_type(o, &mut run.stats.borrow_mut());
        if let Some(lib) = o.name.split("::").next() {
            run.stats.borrow_mut().class(format!("library {lib}"));
        }
        let case = o.case;
        run.forall(
            &format!("{} {}", o.name, o.std.name()),
            cases,
            one(o),
            move |reg, i: &One, st| {
                let o = reg.find(&i.ty, i.std);
                let words = model::stretch(&i.raw, &o.kinds);
                if nontrivial_words(&words) {
                    st.nontrivial(
                        &(&o.name, o.std, &words),
                        || json!({"type": o.name, "mint": twin.name, "layout": o.std.name(), "components": whex(&words)}),
                    );
                }
                let ctx = |e: String| format!("{} in {}: {} (components {:?})", o.name, o.std.name(), e, whex(&words));
                if (o.align, o.size_of, o.size_static) != (twin.align, twin.size_of, twin.size_static) {
                    return Err(ctx(format!(
                        "alignment/size/size query {:?} differ from mint's {:?}",
                        (o.align, o.size_of, o.size_static),
                        (twin.align, twin.size_of, twin.size_static)
                    )));
                }
                if let (Some(a), Some(b)) = (&o.glsl, &twin.glsl) {
                    if !is_struct(o) && a.name != b.name {
                        return Err(ctx(format!("GLSL name {} differs from mint's {}", a.name, b.name)));
                    }
                    if is_struct(o) {
                        if let (Some(x), Some(y)) = (&a.fields, &b.fields) {
                            let x: Vec<_> = x.iter().map(|f| &f.0).collect();
                            let y: Vec<_> = y.iter().map(|f| &f.0).collect();
                            if x != y && model::depth(&o.ty) == 1 {
                                return Err(ctx(format!("GLSL field types {x:?} differ from mint's {y:?}")));
                            }
                        }
                    }
                }
                let (a, b) = ((o.encode)(&words), (twin.encode)(&words));
                if a != b {
                    return Err(ctx(format!("bytes {} differ from mint's {}", hex(&a), hex(&b))));
                }
                let (a, b) = ((o.decode)(&b), (twin.decode)(&b));
                if a != words || b != words {
                    return Err(ctx(format!("decodes to {:?}, mint to {:?}", whex(&a), whex(&b))));
                }
                Ok(())
            },
            move |_| vec![case],
        );
    }
}

/// The first stored words that `Bool` reads wrongly, out of all of them.
fn all_bool_words() -> Vec<u32> {
    fn right(w: u32) -> bool {
        let a: crevice::std140::Bool = bytemuck::cast(w);
        let b: crevice::std430::Bool = bytemuck::cast(w);
        bool::from(a) == (w != 0) && bool::from(b) == (w != 0)
    }
    let step = (1u64 << 32) / 8;
    let part = move |k: u64| (k * step..(k + 1) * step).map(|w| w as u32);
    let threads: Vec<_> =
        (0..8).map(|k| (k, std::thread::spawn(move || part(k).find(|w| !right(*w))))).collect();
    threads
        .into_iter()
        .filter_map(|(k, t)| match t.join() {
            Ok(w) => w,
            Err(_) => part(k).find(|w| !std::panic::catch_unwind(|| right(*w)).unwrap_or(false)),
        })
        .collect()
}

// C07
fn booleans(run: &mut Run) {
    let cases = run.cases;
    // The Bool type itself, all 2^32 stored words of it, in the one program whose
    // registry has it; a wrong word is then judged (and replayed) as any other.
    let mut wrong = vec![];
    if run.input.is_none() && run.reg.ops.iter().any(|o| o.name == "crevice::std140::Bool") {
        wrong = all_bool_words();
        let mut st = run.stats.borrow_mut();
        *st.classes.entry("Bool words swept exhaustively".into()).or_default() += 1 << 32;
    }
    let sweep = wrong.first().map_or(0, |w| *w as u64);
    // The Bool type itself.
    run.forall(
        "Bool",
        cases * 8,
        prop_oneof![
            values::word(),
            any::<u32>().prop_map(|x| x as u64),
            (0u32..32).prop_map(|b| 1u64 << b),
            Just(sweep)
        ],
        |_, w: &u64, st| {
            let w = *w as u32;
            if w > 1 {
                st.nontrivial(&("Bool", w), || json!({"Bool word": w}));
            }
            st.class("raw Bool words");
            let b: crevice::std140::Bool = bytemuck::cast(w);
            if bool::from(b) != (w != 0) {
                return Err(format!("stored word {w:#x} reads as {}", bool::from(b)));
            }
            let b430: crevice::std430::Bool = bytemuck::cast(w);
            if bool::from(b430) != (w != 0) {
                return Err(format!("std430: stored word {w:#x} reads as {}", bool::from(b430)));
            }
            for v in [false, true] {
                let e: u32 = bytemuck::cast(crevice::std140::Bool::from(v));
                if e != v as u32 {
                    return Err(format!("{v} is stored as {e:#x}"));
                }
            }
            Ok(())
        },
        |_| vec![],
    );
    for i in 0..run.reg.ops.len() {
        let o = &run.reg.ops[i];
        if !o.kinds.contains(&Kind::Bool) {
            continue;
        }
        classify_type(o, &mut run.stats.borrow_mut());
        let case = o.case;
        run.forall(
            &format!("{} {}", o.name, o.std.name()),
            cases,
            one(o),
            |reg, i: &One, st| {
                let o = reg.find(&i.ty, i.std);
                // Raw words, not yet reduced to 0/1.
                let as_u32: Vec<Kind> = o.kinds.iter().map(|k| if *k == Kind::Bool { Kind::U32 } else { *k }).collect();
                let stored = model::stretch(&i.raw, &as_u32);
                let vals: Vec<u64> = stored.iter().zip(&o.kinds).map(|(w, k)| k.canon(*w)).collect();
                let read: Vec<u64> = stored.iter().zip(&o.kinds).map(|(w, k)| k.decode(*w)).collect();
                if stored.iter().zip(&o.kinds).any(|(w, k)| *k == Kind::Bool && *w > 1) {
                    st.nontrivial(
                        &(&o.name, o.std, &stored),
                        || json!({"type": o.name, "layout": o.std.name(), "stored": whex(&stored)}),
                    );
                }
                let ctx = |e: String| format!("{} in {}: {}", o.name, o.std.name(), e);
                let b = (o.encode)(&vals);
                check_components(o, &vals, &b).map_err(ctx)?;
                // What a shader could have stored.
                let mut buf = b.clone();
                model::encode_comps(&o.comps, &stored, &mut buf);
                let got = (o.decode)(&buf);
                for ((c, g), r) in o.comps.iter().zip(&got).zip(&read) {
                    if c.kind == Kind::Bool && g != r {
                        return Err(ctx(format!("component {} stored as {:#x} reads as {}", c.path, model::read_raw(c, &buf), g)));
                    }
                }
                Ok(())
            },
            move |_| vec![case],
        );
    }
}

// C21
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Buf {
    ty: String,
    std: Std,
    bytes: Vec<u8>,
}
fn readback(run: &mut Run) {
    let cases = run.cases;
    for i in 0..run.reg.ops.len() {
        let o = &run.reg.ops[i];
        classify_type(o, &mut run.stats.borrow_mut());
        let (name, std, case) = (o.name.clone(), o.std, o.case);
        run.forall(
            &format!("{} {}", o.name, o.std.name()),
            cases,
            values::bytes(o.model.size).prop_map(move |bytes| Buf { ty: name.clone(), std, bytes }),
            |reg, i: &Buf, st| {
                let o = reg.find(&i.ty, i.std);
                let ctx = |e: String| format!("{} in {} from bytes {}: {} (schema {})", o.name, o.std.name(), hex(&i.bytes), e, show(&o.ty));
                if o.size_of != i.bytes.len() {
                    return Err(ctx(format!("the GPU form has {} bytes, must have {}", o.size_of, i.bytes.len())));
                }
                let cov = model::covered(&o.comps, i.bytes.len());
                let dirty = cov.iter().zip(&i.bytes).any(|(c, b)| !c && *b != 0);
                let bools = o.comps.iter().any(|c| c.kind == Kind::Bool && model::read_raw(c, &i.bytes) > 1);
                if dirty {
                    st.class("buffers with garbage padding");
                }
                if bools {
                    st.class("buffers with non-canonical booleans");
                }
                if dirty || bools || i.bytes.iter().any(|b| *b != 0) {
                    st.nontrivial(
                        &(&o.ty, o.std, &i.bytes),
                        || json!({"type": o.name, "layout": o.std.name(), "bytes": hex(&i.bytes)}),
                    );
                }
                let want: Vec<u64> = o.comps.iter().map(|c| c.kind.decode(model::read_raw(c, &i.bytes))).collect();
                let got = (o.decode)(&i.bytes);
                if got != want {
                    return Err(ctx(format!("read as {:?}, must be {:?}", whex(&got), whex(&want))));
                }
                let again = (o.encode)(&got);
                let canon = model::encode(&o.ty, o.std, &want);
                if again != canon {
                    return Err(ctx(format!("encodes again as {}, must be {}", hex(&again), hex(&canon))));
                }
                Ok(())
            },
            move |_| vec![case],
        );
    }
}

// ---------------------------------------------------------------- histories

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    Write,
    Raw,
    Trait,
    Slice,
    SliceDeprecated,
    Iter,
    IterLazy,
    /// The iterator would go on after its end.
    IterGoesOn,
    /// The iterator panics after its last value.
    IterPanics,
    IterConverted,
    SliceConverted,
    CustomSlice,
    CustomIter,
    Dynamic,
    DynamicSlice,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    ty: String,
    how: How,
    /// One entry per value.
    vals: Vec<Vec<u64>>,
    /// Repeat the values this often (long slices).
    times: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    std: Std,
    ops: Vec<Op>,
}

/// Only where a panic is expected: IterPanics.
const ALL_HOW: [How; 14] = [
    How::Write,
    How::Raw,
    How::Trait,
    How::Slice,
    How::SliceDeprecated,
    How::Iter,
    How::IterLazy,
    How::IterGoesOn,
    How::IterConverted,
    How::SliceConverted,
    How::CustomSlice,
    How::CustomIter,
    How::Dynamic,
    How::DynamicSlice,
];

fn names(reg: &Reg, std: Std, pick: &dyn Fn(&Ops) -> bool) -> Vec<String> {
    reg.ops.iter().filter(|o| o.std == std && pick(o)).map(|o| o.name.clone()).collect()
}

/// Strategy that picks primitives and structs equally often.
fn type_name(reg: &Reg, std: Std) -> BoxedStrategy<String> {
    let p = names(reg, std, &|o| !is_struct(o));
    let s = names(reg, std, &is_struct);
    match (p.is_empty(), s.is_empty()) {
        (true, _) => prop::sample::select(s).boxed(),
        (_, true) => prop::sample::select(p).boxed(),
        _ => prop_oneof![prop::sample::select(p), prop::sample::select(s)].boxed(),
    }
}

fn op(reg: &Reg, std: Std, hows: Vec<How>, long: bool) -> BoxedStrategy<Op> {
    let times = if long {
        prop_oneof![30 => Just(1usize), 2 => 2usize..40, 1 => 40usize..400].boxed()
    } else {
        Just(1usize).boxed()
    };
    (
        type_name(reg, std),
        prop::sample::select(hows),
        prop::collection::vec(values::raw(12), 0..5),
        times,
    )
        .prop_map(move |(ty, how, vals, times)| Op { ty, how, vals, times })
        .boxed()
}

fn history(reg: &Reg, std: Std, hows: Vec<How>, max: usize, long: bool) -> BoxedStrategy<History> {
    let hows: Vec<How> = hows
        .into_iter()
        .filter(|h| std == Std::Std140 || !matches!(h, How::SliceDeprecated | How::Dynamic | How::DynamicSlice))
        .collect();
    prop::collection::vec(op(reg, std, hows, long), 1..=max)
        .prop_map(move |ops| History { std, ops })
        .boxed()
}

fn both_stds(reg: &Reg) -> Vec<Std> {
    [Std::Std140, Std::Std430].into_iter().filter(|s| reg.ops.iter().any(|o| o.std == *s)).collect()
}

fn used(reg: &Reg, h: &History) -> Vec<usize> {
    let mut v: Vec<usize> = h.ops.iter().map(|o| reg.find(&o.ty, h.std).case).collect();
    v.sort();
    v.dedup();
    v
}

/// Values of an op, as component words. Single-value calls use exactly one.
fn op_values(o: &Ops, op: &Op) -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = op.vals.iter().map(|r| model::stretch(r, &o.kinds)).collect();
    if matches!(op.how, How::Write | How::Raw | How::Trait | How::Dynamic) {
        v.truncate(1);
        if v.is_empty() {
            v.push(model::stretch(&[3, 5, 7], &o.kinds));
        }
        return v;
    }
    let once = v.clone();
    for t in 1..op.times {
        for (i, x) in once.iter().enumerate() {
            // Make repetitions distinguishable.
            let mut x = x.clone();
            for (j, w) in x.iter_mut().enumerate() {
                *w = o.kinds[j].canon(w.wrapping_add((t * 7 + i) as u64));
            }
            v.push(x);
        }
    }
    v
}

/// Model of a Writer.
pub struct ModelWriter {
    /// Bytes written before `out`.
    pub base: usize,
    pub out: Vec<u8>,
}
impl ModelWriter {
    fn len(&self) -> usize {
        self.base + self.out.len()
    }
    fn put(&mut self, align: usize, bytes: &[u8]) -> usize {
        let at = model::up(self.len(), align);
        self.out.resize(at - self.base, 0);
        self.out.extend_from_slice(bytes);
        at
    }
    fn put_all(&mut self, align: usize, vals: &[Vec<u8>]) -> usize {
        let mut first = self.len();
        for (i, v) in vals.iter().enumerate() {
            let at = self.put(align, v);
            if i == 0 {
                first = at;
            }
        }
        first
    }
    fn apply(&mut self, o: &Ops, how: How, vals: &[Vec<u64>]) -> usize {
        // The value's own bytes and alignment: whether those are right is the
        // business of other properties.
        let enc: Vec<Vec<u8>> = vals.iter().map(|v| (o.encode)(v)).collect();
        match how {
            How::Dynamic | How::DynamicSlice => self.put_all(o.align.max(256), &enc),
            How::CustomSlice | How::CustomIter => {
                let mut first = None;
                for c in enc.chunks(2) {
                    let at = self.put(4, &(c.len() as u32).to_ne_bytes());
                    first.get_or_insert(at);
                    self.put_all(o.align, c);
                }
                first.unwrap_or(self.len())
            }
            _ => self.put_all(o.align, &enc),
        }
    }
}

fn real(o: &Ops, w: &mut AnyWriter, how: How, vals: &[Vec<u64>]) -> std::io::Result<usize> {
    match how {
        How::Write => (o.write)(w, &vals[0]),
        How::Raw => (o.write_raw)(w, &vals[0]),
        How::Trait => (o.write_via_trait)(w, &vals[0]),
        How::Slice => (o.write_slice)(w, vals),
        How::SliceDeprecated => o.write_slice_deprecated.unwrap()(w, vals),
        How::Iter => (o.write_iter)(w, vals),
        How::IterLazy => (o.write_iter_lazy)(w, vals),
        How::IterGoesOn => (o.write_iter_goes_on)(w, vals),
        How::IterPanics => (o.write_iter_panics)(w, vals),
        How::IterConverted => (o.write_iter_converted)(w, vals),
        How::SliceConverted => (o.write_slice_converted)(w, vals),
        How::CustomSlice => (o.write_custom_slice)(w, vals),
        How::CustomIter => (o.write_custom_iter)(w, vals),
        How::Dynamic => o.dynamic_write.unwrap()(w, &vals[0]),
        How::DynamicSlice => o.dynamic_write_slice.unwrap()(w, vals),
    }
}

fn describe(reg: &Reg, h: &History) -> serde_json::Value {
    json!({"layout": h.std.name(), "calls": h.ops.iter().take(12).map(|op| {
        let o = reg.find(&op.ty, h.std);
        format!("{:?} {} x{}", op.how, show(&o.ty), op_values(o, op).len())
    }).collect::<Vec<_>>()})
}

fn history_key(h: &History) -> String {
    serde_json::to_string(h).unwrap()
}

fn classify_history(reg: &Reg, h: &History, gaps: usize, total: usize, st: &mut Stats) {
    for op in &h.ops {
        st.class(format!("call {:?}", op.how));
        if is_struct(reg.find(&op.ty, h.std)) {
            st.class("calls with structs");
        }
        if op.vals.is_empty() {
            st.class("calls with no values");
        }
    }
    if gaps > 0 {
        st.class("histories with alignment gaps");
    }
    st.class(match total {
        0..=255 => "output <256 bytes",
        256..=4095 => "output 256-4K",
        4096..=65535 => "output 4K-64K",
        _ => "output >=64K",
    });
}

// C08
fn writer(run: &mut Run) {
    let cases = run.cases;
    for std in both_stds(run.reg) {
        let reg = run.reg;
        run.forall(
            &format!("history {}", std.name()),
            cases,
            history(reg, std, [&ALL_HOW[..], &[How::IterPanics]].concat(), 14, true),
            |reg, h: &History, st| {
                let sink = Sink::new();
                let w = AnyWriter::new(h.std, &sink);
                if w.len() != 0 {
                    return Err(format!("a new Writer has length {}", w.len()));
                }
                write_history(reg, h, st, sink, w, 0)
            },
            |h| used(reg, h),
        );
        // Several Writers in use at once, taking turns in one thread or each in a
        // thread of its own.
        let together = (
            prop::collection::vec(history(reg, std, ALL_HOW.to_vec(), 8, false), 2..5),
            prop::collection::vec(any::<u8>(), 1..24),
            any::<bool>(),
        )
            .prop_map(|(hs, turns, threads)| Together { hs, turns, threads });
        run.forall(
            &format!("together {}", std.name()),
            cases / 8 + 1,
            together,
            |reg, t: &Together, st| {
                if t.threads {
                    st.class("Writers in several threads");
                    let start = std::sync::Barrier::new(t.hs.len());
                    return std::thread::scope(|scope| {
                        let run: Vec<_> = t
                            .hs
                            .iter()
                            .map(|h| {
                                scope.spawn(|| {
                                    start.wait();
                                    let mut none = Stats::default();
                                    (0..12).try_for_each(|_| {
                                        let sink = Sink::new();
                                        let w = AnyWriter::new(h.std, &sink);
                                        write_history(reg, h, &mut none, sink, w, 0)
                                    })
                                })
                            })
                            .collect();
                        run.into_iter().try_for_each(|r| {
                            r.join().unwrap_or_else(|_| Err("panic".into())).map_err(|e| format!("with Writers in other threads: {e}"))
                        })
                    });
                }
                st.class("Writers taking turns");
                let mut live: Vec<_> = t
                    .hs
                    .iter()
                    .map(|h| {
                        let sink = Sink::new();
                        (0, AnyWriter::new(h.std, &sink), sink, ModelWriter { base: 0, out: vec![] })
                    })
                    .collect();
                let mut turn = 0;
                loop {
                    let left: Vec<usize> = (0..live.len()).filter(|i| live[*i].0 < t.hs[*i].ops.len()).collect();
                    if left.is_empty() {
                        break;
                    }
                    let k = left[t.turns[turn % t.turns.len()] as usize % left.len()];
                    turn += 1;
                    let (at, w, sink, m) = &mut live[k];
                    let op = &t.hs[k].ops[*at];
                    let o = reg.find(&op.ty, t.hs[k].std);
                    let vals = op_values(o, op);
                    let want = m.apply(o, op.how, &vals);
                    let got = real(o, w, op.how, &vals).map_err(|e| format!("failed on an ideal sink: {e}"))?;
                    if got != want || w.len() != m.len() || sink.bytes() != m.out {
                        return Err(format!(
                            "{} Writers taking turns, call {at} of Writer {k} ({:?} of {} values of {}): returned {got} instead of {want}, len() {}, output {} instead of {}",
                            t.hs.len(), op.how, vals.len(), show(&o.ty), w.len(), hex(&sink.bytes()), hex(&m.out)
                        ));
                    }
                    *at += 1;
                }
                st.nontrivial(&serde_json::to_string(t).unwrap(), || {
                    json!({"together": t.hs.iter().map(|h| describe(reg, h)).collect::<Vec<_>>()})
                });
                Ok(())
            },
            |t| {
                let mut v: Vec<usize> = t.hs.iter().flat_map(|h| used(reg, h)).collect();
                v.sort();
                v.dedup();
                v
            },
        );
        // The same far into a buffer, around 4 GiB.
        let Some(chunk) = reg.chunk else { continue };
        let far = (
            history(reg, std, ALL_HOW.to_vec(), 14, true),
            prop::sample::select(&[1usize << 31, 1 << 32, (1 << 32) - 0x4_0000, (1 << 32) - 0x4_0000][..]),
        )
            .prop_map(|(h, far)| Far { h, far })
            .no_shrink();
        run.forall(
            &format!("far {}", std.name()),
            1 + cases / 4000,
            far,
            move |reg, f: &Far, st| {
                let sink = Sink::new();
                sink.0.borrow_mut().skip = true;
                let mut w = AnyWriter::new(f.h.std, &sink);
                let mut at = 0usize;
                // Right up to the power of two, or just past it.
                while at + 0x4_0000 <= f.far {
                    let got = chunk(&mut w).map_err(|e| e.to_string())?;
                    if got != at || w.len() != at + 0x4_0000 {
                        return Err(format!("256 KiB written at {at}: returned {got}, length {}", w.len()));
                    }
                    at += 0x4_0000;
                }
                if sink.len() != at {
                    return Err(format!("{} bytes received, must be {at}", sink.len()));
                }
                sink.0.borrow_mut().skip = false;
                st.class("histories that start near 2 or 4 GiB");
                write_history(reg, &f.h, st, sink, w, at)
            },
            |f| used(reg, &f.h),
        );
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Together {
    hs: Vec<History>,
    turns: Vec<u8>,
    threads: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Far {
    h: History,
    far: usize,
}

fn write_history(reg: &Reg, h: &History, st: &mut Stats, sink: Sink, mut w: AnyWriter, base: usize) -> Result<(), String> {
    let mut m = ModelWriter { base, out: vec![] };
    let (mut gaps, mut calls) = (0, 0);
    for (i, op) in h.ops.iter().enumerate() {
        let o = reg.find(&op.ty, h.std);
        let vals = op_values(o, op);
        // Calls that take one value are repeated instead.
        let single = matches!(op.how, How::Write | How::Raw | How::Trait | How::Dynamic);
        for _ in 0..if single { op.times } else { 1 } {
            let before = m.len();
            let want = m.apply(o, op.how, &vals);
            if want > before {
                gaps += 1;
            }
            let got = real(o, &mut w, op.how, &vals).map_err(|e| format!("call {i} failed on an ideal sink: {e}"))?;
            // How much of it arrived is open when the caller's iterator panics.
            let want = if op.how == How::IterPanics {
                let b = sink.bytes();
                if b.len() < before - base || !m.out.starts_with(&b) {
                    return Err(format!("call {i}: an iterator panicked after {} values of {}; the output then is {} and no part of {}", vals.len(), show(&o.ty), hex(&b), hex(&m.out)));
                }
                m.out = b;
                st.class("iterators that panic");
                usize::MAX
            } else {
                want
            };
            let what = || format!("call {i} ({:?} of {} values of {} at length {before})", op.how, vals.len(), show(&o.ty));
            if got != want {
                return Err(format!("{} returned {got}, must return {want}", what()));
            }
            if w.len() != m.len() || sink.len() != w.len() {
                return Err(format!(
                    "after {}: len() is {}, the sink received {} bytes, must be {}",
                    what(),
                    w.len(),
                    sink.len(),
                    m.len()
                ));
            }
            calls += 1;
        }
    }
    if calls > 100 {
        st.class("histories of more than 100 calls");
    }
    let b = sink.bytes();
    if b != m.out {
        let at = b.iter().zip(&m.out).position(|(a, b)| a != b).unwrap();
        let lo = at.saturating_sub(8);
        return Err(format!(
            "output differs at byte {at}: {} instead of {} (from byte {lo})",
            hex(&b[lo..(at + 24).min(b.len())]),
            hex(&m.out[lo..(at + 24).min(b.len())])
        ));
    }
    classify_history(reg, h, gaps, b.len(), st);
    // Non-trivial: at least two calls and one alignment gap.
    if h.ops.len() >= 2 && gaps > 0 {
        st.nontrivial(&(history_key(h), base), || describe(reg, h));
    }
    Ok(())
}

// C09
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Batches {
    std: Std,
    prefix: Vec<(String, Vec<u64>)>,
    ty: String,
    vals: Vec<Vec<u64>>,
}
fn batches(run: &mut Run) {
    let cases = run.cases;
    long_lists(run, false);
    for std in both_stds(run.reg) {
        let reg = run.reg;
        let strat = (
            prop::collection::vec((type_name(reg, std), values::raw(4)), 0..4),
            type_name(reg, std),
            prop_oneof![8 => 0usize..6, 1 => 6usize..40].prop_flat_map(|n| prop::collection::vec(values::raw(12), n)),
        )
            .prop_map(move |(prefix, ty, vals)| Batches { std, prefix, ty, vals });
        run.forall(
            &format!("batch {}", std.name()),
            cases,
            strat,
            |reg, b: &Batches, st| {
                let o = reg.find(&b.ty, b.std);
                let vals: Vec<Vec<u64>> = b.vals.iter().map(|r| model::stretch(r, &o.kinds)).collect();
                let start = |sink: &Sink| -> Result<AnyWriter, String> {
                    let mut w = AnyWriter::new(b.std, sink);
                    for (t, raw) in &b.prefix {
                        let p = reg.find(t, b.std);
                        (p.write)(&mut w, &model::stretch(raw, &p.kinds)).map_err(|e| e.to_string())?;
                    }
                    Ok(w)
                };
                // One by one.
                let sink = Sink::new();
                let mut w = start(&sink)?;
                let base = sink.len();
                let mut first = w.len();
                for (i, v) in vals.iter().enumerate() {
                    let at = (o.write)(&mut w, v).map_err(|e| e.to_string())?;
                    if i == 0 {
                        first = at;
                    }
                }
                let want = (first, w.len(), sink.bytes());
                if want.1 != want.2.len() {
                    return Err(format!("one by one: len() {} but {} bytes", want.1, want.2.len()));
                }
                // Every value exactly once, in order: enforced by comparison with
                // the model below, as all ways could be wrong in the same manner.
                let mut m = ModelWriter {
                    base: 0,
                    out: want.2[..base].to_vec(),
                };
                let mfirst = m.apply(o, How::Slice, &vals);
                if (mfirst, m.out.len(), &m.out) != (want.0, want.1, &want.2) {
                    return Err(format!(
                        "one by one: first value at {}, must be {}; bytes {} must be {}",
                        want.0,
                        mfirst,
                        hex(&want.2),
                        hex(&m.out)
                    ));
                }
                for how in [
                    How::Slice,
                    How::SliceDeprecated,
                    How::Iter,
                    How::IterLazy,
                    How::IterGoesOn,
                    How::IterConverted,
                    How::SliceConverted,
                    How::Raw,
                    How::Trait,
                ] {
                    if how == How::SliceDeprecated && o.write_slice_deprecated.is_none() {
                        continue;
                    }
                    let sink = Sink::new();
                    let mut w = start(&sink)?;
                    let got = if matches!(how, How::Raw | How::Trait) {
                        let mut first = w.len();
                        for (i, v) in vals.iter().enumerate() {
                            let at = real(o, &mut w, how, std::slice::from_ref(v)).map_err(|e| e.to_string())?;
                            if i == 0 {
                                first = at;
                            }
                        }
                        first
                    } else {
                        real(o, &mut w, how, &vals).map_err(|e| e.to_string())?
                    };
                    let got = (got, w.len(), sink.bytes());
                    if got != want {
                        return Err(format!(
                            "{how:?} of {} values of {} at length {base}: returned {}, length {}, bytes {}; one by one: returned {}, length {}, bytes {}",
                            vals.len(),
                            show(&o.ty),
                            got.0,
                            got.1,
                            hex(&got.2[base..]),
                            want.0,
                            want.1,
                            hex(&want.2[base..])
                        ));
                    }
                }
                // A hand-written WriteStd140/430 type inside slices and iterators.
                for how in [How::CustomSlice, How::CustomIter] {
                    let sink = Sink::new();
                    let mut w = start(&sink)?;
                    let mut m = ModelWriter { base: 0, out: sink.bytes() };
                    let want = m.apply(o, how, &vals);
                    let got = real(o, &mut w, how, &vals).map_err(|e| e.to_string())?;
                    if (got, w.len(), sink.bytes()) != (want, m.out.len(), m.out.clone()) {
                        return Err(format!(
                            "{how:?} of {} values of {} at length {base}: returned {got}, length {}, bytes {}; must be {want}, {}, {}",
                            vals.len(),
                            show(&o.ty),
                            w.len(),
                            hex(&sink.bytes()[base..]),
                            m.out.len(),
                            hex(&m.out[base..])
                        ));
                    }
                }
                st.class(match vals.len() {
                    0 => "0 values",
                    1 => "1 value",
                    2..=5 => "2-5 values",
                    _ => "6+ values",
                });
                if base % o.align != 0 {
                    st.class("starts unaligned");
                }
                if o.size_of % o.align != 0 {
                    st.class("gap between elements");
                }
                // Non-trivial: at least two values, or none at an unaligned start.
                if vals.len() >= 2 || (vals.is_empty() && base % o.align != 0) {
                    st.nontrivial(
                        &serde_json::to_string(b).unwrap(),
                        || json!({"layout": b.std.name(), "start": base, "type": show(&o.ty), "values": vals.len()}),
                    );
                }
                Ok(())
            },
            |b| {
                let mut v: Vec<usize> = b.prefix.iter().map(|p| reg.find(&p.0, b.std).case).collect();
                v.push(reg.find(&b.ty, b.std).case);
                v.sort();
                v.dedup();
                v
            },
        );
    }
}

/// Lengths around the limits of small integer types.
fn long_len() -> BoxedStrategy<usize> {
    prop_oneof![
        2 => (prop::sample::select(&[256usize, 1024, 4096, 8192, 32768][..]), -2i64..=2).prop_map(|(n, d)| (n as i64 + d) as usize),
        2 => (-2i64..=2).prop_map(|d| (65536 + d) as usize),
        1 => 65_539usize..140_000,
    ]
    .boxed()
}

/// `n` values that differ from their neighbours.
fn counted(o: &Ops, n: usize, salt: u64) -> Vec<Vec<u64>> {
    (0..n as u64)
        .map(|i| {
            o.kinds
                .iter()
                .enumerate()
                .map(|(j, k)| k.canon(i.wrapping_mul(0x9e37_79b9_7f4a_7c15 | 1).rotate_left(j as u32) ^ salt ^ i))
                .collect()
        })
        .collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    std: Std,
    prefix: Option<String>,
    ty: String,
    n: usize,
    salt: u64,
}

/// C09 and C11 with very many values.
fn long_lists(run: &mut Run, sizes_only: bool) {
    // The longest lists take a while in unoptimised code.
    let cases = 2 + run.cases / 250;
    for std in both_stds(run.reg) {
        let reg = run.reg;
        let small = names(reg, std, &|o| o.size_of <= 96 && o.kinds.len() <= 16);
        if small.is_empty() {
            continue;
        }
        let strat = (
            prop::option::of(prop::sample::select(small.clone())),
            prop::sample::select(small),
            long_len(),
            any::<u64>(),
        )
            .prop_map(move |(prefix, ty, n, salt)| Long { std, prefix, ty, n, salt });
        run.forall(
            &format!("long {}", std.name()),
            cases,
            strat,
            |reg, l: &Long, st| {
                let o = reg.find(&l.ty, l.std);
                let vals = counted(o, l.n, l.salt);
                let start = |sink: &Sink| -> Result<AnyWriter, String> {
                    let mut w = AnyWriter::new(l.std, sink);
                    if let Some(p) = &l.prefix {
                        let p = reg.find(p, l.std);
                        (p.write)(&mut w, &model::stretch(&[l.salt], &p.kinds)).map_err(|e| e.to_string())?;
                    }
                    Ok(w)
                };
                let what = |how: &str| format!("{how} of {} values of {} in {}", l.n, show(&o.ty), l.std.name());
                if sizes_only {
                    for (custom, q) in [(false, (o.size_slice)(&vals)), (true, (o.size_custom_slice)(&vals))] {
                        let sink = Sink::new();
                        let mut w = AnyWriter::new(l.std, &sink);
                        let f = if custom { o.write_custom_slice } else { o.write_slice };
                        f(&mut w, &vals).map_err(|e| e.to_string())?;
                        if q != sink.len() {
                            return Err(format!(
                                "{}: query {q}, written {}",
                                what(if custom { "slice of hand-written types" } else { "slice" }),
                                sink.len()
                            ));
                        }
                    }
                } else {
                    let base = {
                        let sink = Sink::new();
                        start(&sink)?;
                        sink.bytes()
                    };
                    for how in [
                        How::Slice,
                        How::SliceDeprecated,
                        How::Iter,
                        How::IterLazy,
                        How::IterGoesOn,
                        How::SliceConverted,
                        How::IterConverted,
                        How::CustomSlice,
                        How::CustomIter,
                    ] {
                        if how == How::SliceDeprecated && o.write_slice_deprecated.is_none() {
                            continue;
                        }
                        let mut m = ModelWriter { base: 0, out: base.clone() };
                        let want = m.apply(o, how, &vals);
                        let sink = Sink::new();
                        let mut w = start(&sink)?;
                        let got = real(o, &mut w, how, &vals).map_err(|e| e.to_string())?;
                        if got != want || w.len() != m.out.len() || sink.len() != m.out.len() {
                            return Err(format!(
                                "{}: returned {got}, length {}, {} bytes; must be {want}, {}",
                                what(&format!("{how:?}")),
                                w.len(),
                                sink.len(),
                                m.out.len()
                            ));
                        }
                        if let Some(at) = sink.bytes().iter().zip(&m.out).position(|(a, b)| a != b) {
                            return Err(format!("{}: wrong byte at {at}", what(&format!("{how:?}"))));
                        }
                    }
                }
                st.class(if l.n > 65535 { "more than 65535 values" } else { "254-65535 values" });
                st.nontrivial(
                    &serde_json::to_string(l).unwrap(),
                    || json!({"layout": l.std.name(), "type": show(&o.ty), "values": l.n}),
                );
                Ok(())
            },
            |l| {
                let mut v = vec![reg.find(&l.ty, l.std).case];
                v.extend(l.prefix.iter().map(|p| reg.find(p, l.std).case));
                v.sort();
                v.dedup();
                v
            },
        );
    }
}

// C10
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Types {
    std: Std,
    /// (type, dynamic, repetitions)
    adds: Vec<(String, bool, usize)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HugeTypes {
    std: Std,
    /// Huge or ordinary types by name.
    adds: Vec<(bool, String)>,
}
fn sizer(run: &mut Run) {
    let cases = run.cases;
    for std in both_stds(run.reg) {
        let reg = run.reg;
        let strat = prop::collection::vec(
            (
                type_name(reg, std),
                if std == Std::Std140 {
                    prop::bool::weighted(0.2).boxed()
                } else {
                    Just(false).boxed()
                },
                prop_oneof![12 => Just(1usize), 2 => 2usize..20, 1 => 20usize..300],
            ),
            1..20,
        )
        .prop_map(move |adds| Types { std, adds });
        run.forall(
            &format!("sizer {}", std.name()),
            cases,
            strat,
            |reg, t: &Types, st| {
                let mut s = AnySizer::new(t.std);
                let sink = Sink::new();
                let mut w = AnyWriter::new(t.std, &sink);
                if s.len() != 0 {
                    return Err(format!("a new Sizer has length {}", s.len()));
                }
                let mut end = 0usize;
                let mut gaps = 0;
                for (i, (name, dynamic, times)) in t.adds.iter().enumerate() {
                    let o = reg.find(name, t.std);
                    let v = model::stretch(&[1, 2, 3], &o.kinds);
                    for k in 0..*times {
                        let (a, b, align) = if *dynamic {
                            (o.dynamic_sizer.unwrap()(&mut s), o.dynamic_write.unwrap()(&mut w, &v), o.align.max(256))
                        } else {
                            ((o.sizer_add)(&mut s), (o.write)(&mut w, &v), o.align)
                        };
                        let b = b.map_err(|e| e.to_string())?;
                        let want = model::up(end, align);
                        if want > end {
                            gaps += 1;
                        }
                        end = want + o.size_of;
                        if a != b || s.len() != w.len() || a != want || s.len() != end {
                            return Err(format!(
                                "add {i} ({}{}, repetition {k}): Sizer says offset {a}, length {}; Writer: offset {b}, length {}; must be {want}, {end}",
                                if *dynamic { "dynamic " } else { "" }, show(&o.ty), s.len(), w.len()
                            ));
                        }
                    }
                }
                st.class(match end {
                    0..=255 => "total <256",
                    256..=4095 => "total 256-4K",
                    4096..=65535 => "total 4K-64K",
                    _ => "total >=64K",
                });
                // Non-trivial: two or more types and an alignment gap.
                if t.adds.len() >= 2 && gaps > 0 {
                    st.nontrivial(&serde_json::to_string(t).unwrap(), || {
                        json!({"layout": t.std.name(), "adds": t.adds.iter().take(12).map(|a| format!("{}{} x{}", if a.1 {"dynamic "} else {""}, show(&reg.find(&a.0, t.std).ty), a.2)).collect::<Vec<_>>()})
                    });
                }
                Ok(())
            },
            |t| {
                let mut v: Vec<usize> = t.adds.iter().map(|a| reg.find(&a.0, t.std).case).collect();
                v.sort();
                v.dedup();
                v
            },
        );
        let huge: Vec<String> = run.reg.huge.iter().filter(|h| h.std == std).map(|h| h.name.clone()).collect();
        if huge.is_empty() {
            continue;
        }
        let strat = prop::collection::vec(
            prop_oneof![prop::sample::select(huge).prop_map(|n| (true, n)), type_name(reg, std).prop_map(|n| (false, n))],
            2..24,
        )
        .prop_map(move |adds| HugeTypes { std, adds });
        run.forall(
            &format!("huge {}", std.name()),
            cases,
            strat,
            |reg, t: &HugeTypes, st| {
                let mut s = AnySizer::new(t.std);
                let mut end = 0u128;
                let mut gaps = 0;
                for (i, (is_huge, name)) in t.adds.iter().enumerate() {
                    let (size, align, got);
                    if *is_huge {
                        let h = reg.huge.iter().find(|h| h.name == *name && h.std == t.std).unwrap();
                        (size, align) = (h.size, h.align);
                        got = (h.add)(&mut s);
                    } else {
                        let o = reg.find(name, t.std);
                        (size, align) = (o.size_of as u128, o.align as u128);
                        got = (o.sizer_add)(&mut s);
                    }
                    let want = end.div_ceil(align) * align;
                    if want > end && end > u32::MAX as u128 {
                        gaps += 1;
                    }
                    end = want + size;
                    if got as u128 != want || s.len() as u128 != end {
                        return Err(format!("add {i} ({name}): offset {got}, length {}; must be {want}, {end}", s.len()));
                    }
                }
                if end > u32::MAX as u128 {
                    st.class("total >4G");
                }
                if gaps > 0 {
                    st.nontrivial(
                        &serde_json::to_string(t).unwrap(),
                        || json!({"layout": t.std.name(), "huge adds": t.adds, "total": end.to_string()}),
                    );
                }
                Ok(())
            },
            |t| {
                let mut v: Vec<usize> = t.adds.iter().filter(|a| !a.0).map(|a| reg.find(&a.1, t.std).case).collect();
                v.sort();
                v.dedup();
                v
            },
        );
    }
}

// C11
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Vals {
    ty: String,
    std: Std,
    vals: Vec<Vec<u64>>,
}
fn sizes(run: &mut Run) {
    let cases = run.cases;
    long_lists(run, true);
    for i in 0..run.reg.ops.len() {
        let o = &run.reg.ops[i];
        classify_type(o, &mut run.stats.borrow_mut());
        let (name, std, case) = (o.name.clone(), o.std, o.case);
        run.forall(
            &format!("{} {}", o.name, o.std.name()),
            cases,
            prop_oneof![10 => 0usize..7, 1 => 7usize..70]
                .prop_flat_map(|n| prop::collection::vec(values::raw(3), n))
                .prop_map(move |vals| Vals { ty: name.clone(), std, vals }),
            |reg, i: &Vals, st| {
                let o = reg.find(&i.ty, i.std);
                let vals: Vec<Vec<u64>> = i.vals.iter().map(|r| model::stretch(r, &o.kinds)).collect();
                let v = vals.first().cloned().unwrap_or_else(|| model::stretch(&[9], &o.kinds));
                let ctx = |e: String| format!("{} in {}: {}", show(&o.ty), o.std.name(), e);
                let fresh = |f: &dyn Fn(&mut AnyWriter) -> std::io::Result<usize>| -> Result<usize, String> {
                    let sink = Sink::new();
                    let mut w = AnyWriter::new(o.std, &sink);
                    f(&mut w).map_err(|e| ctx(e.to_string()))?;
                    if w.len() != sink.len() {
                        return Err(ctx(format!("Writer length {} but {} bytes", w.len(), sink.len())));
                    }
                    Ok(sink.len())
                };
                let written = fresh(&|w| (o.write)(w, &v))?;
                let enc = (o.encode)(&v).len();
                let all = [o.size_static, (o.size_value)(&v), (o.size_converted)(&v), enc, o.size_of, written];
                if all.iter().any(|x| *x != written) {
                    return Err(ctx(format!(
                        "static query {}, value query {}, query on converted value {}, encoded {}, size_of {}, written {}",
                        all[0], all[1], all[2], all[3], all[4], all[5]
                    )));
                }
                let q = (o.size_slice)(&vals);
                let wr = fresh(&|w| (o.write_slice)(w, &vals))?;
                if q != wr {
                    return Err(ctx(format!("slice of {}: query {q}, written {wr}", vals.len())));
                }
                let q = (o.size_custom_slice)(&vals);
                let wr = fresh(&|w| (o.write_custom_slice)(w, &vals))?;
                if q != wr {
                    return Err(ctx(format!("slice of hand-written types over {}: query {q}, written {wr}", vals.len())));
                }
                if vals.len() <= 2 && !vals.is_empty() {
                    let q = (o.size_custom)(&vals);
                    if q != wr {
                        return Err(ctx(format!("hand-written type over {}: query {q}, written {wr}", vals.len())));
                    }
                }
                st.class(match vals.len() {
                    0 => "empty slices",
                    1 => "slices of 1",
                    2..=6 => "slices of 2-6",
                    _ => "slices of 7+",
                });
                if vals.len() != 1 {
                    st.nontrivial(
                        &(&o.ty, o.std, vals.len()),
                        || json!({"type": show(&o.ty), "layout": o.std.name(), "slice length": vals.len()}),
                    );
                }
                Ok(())
            },
            move |_| vec![case],
        );
    }
}

// C12
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Faulty {
    h: History,
    /// (position as a fraction of the fault-free output in 1/65536, offset, fault)
    faults: Vec<(u16, i8, Fault)>,
    /// Most bytes that one call to the sink accepts, if not 0.
    chunk: usize,
}
fn faults(run: &mut Run) {
    let cases = run.cases;
    for std in both_stds(run.reg) {
        let reg = run.reg;
        let fault = prop_oneof![
            3 => Just(Fault::Short),
            3 => Just(Fault::Interrupted),
            1 => (1u16..600).prop_map(Fault::Interrupts),
            2 => (0..crate::sink::ERRORS).prop_map(Fault::Error),
            1 => Just(Fault::Full),
        ];
        let strat = (
            history(reg, std, ALL_HOW.to_vec(), 6, false),
            prop::collection::vec((any::<u16>(), -3i8..=3, fault), 1..8),
            prop_oneof![3 => Just(0usize), 1 => Just(1usize), 1 => 2usize..10, 1 => 10usize..80],
        )
            .prop_map(|(h, faults, chunk)| Faulty { h, faults, chunk });
        run.forall(
            &format!("faults {}", std.name()),
            cases,
            strat,
            |reg, f: &Faulty, st| {
                let h = &f.h;
                // Fault-free output and, per call, what it returns and where it ends.
                let mut m = ModelWriter { base: 0, out: vec![] };
                let mut calls = vec![];
                for op in &h.ops {
                    let o = reg.find(&op.ty, h.std);
                    let vals = op_values(o, op);
                    let at = m.apply(o, op.how, &vals);
                    calls.push((o, op.how, vals, at, m.out.len()));
                }
                let n = m.out.len();
                let mut faults: Vec<(usize, Fault)> = f
                    .faults
                    .iter()
                    .map(|(p, d, k)| {
                        let pos = (*p as u64 * (n as u64 + 1) / 65536) as i64 + *d as i64;
                        (pos.clamp(0, n as i64) as usize, *k)
                    })
                    .collect();
                faults.sort_by_key(|x| x.0);
                let sink = Sink::with_faults(faults.clone());
                sink.0.borrow_mut().chunk = f.chunk;
                let mut w = AnyWriter::new(h.std, &sink);
                let mut failed_in = None;
                for (i, (o, how, vals, at, end)) in calls.iter().enumerate() {
                    let before = sink.0.borrow().raised.len();
                    let r = real(o, &mut w, *how, vals);
                    let raised = sink.0.borrow().raised.clone();
                    let what = || {
                        format!(
                            "call {i} ({how:?} of {} values of {}), faults {faults:?}, sink received {} bytes",
                            vals.len(),
                            show(&o.ty),
                            sink.len()
                        )
                    };
                    let received = sink.bytes();
                    if received.len() > n || received[..] != m.out[..received.len()] {
                        return Err(format!(
                            "{}: what the sink received is not a prefix of the fault-free output: {} vs {}",
                            what(),
                            hex(&received),
                            hex(&m.out)
                        ));
                    }
                    if w.len() > received.len() {
                        return Err(format!("{}: len() is {}, more than the sink received", what(), w.len()));
                    }
                    if raised.len() > before {
                        let theirs = &raised[before];
                        match r {
                            Ok(x) => return Err(format!("{}: returned Ok({x}) although the sink failed with {theirs:?}", what())),
                            Err(e) if !theirs.is(&e) => {
                                return Err(format!("{}: returned error {e:?}, the sink's was {theirs:?}", what()))
                            }
                            Err(_) => {}
                        }
                        failed_in = Some((i, received.len()));
                        break;
                    }
                    match r {
                        Err(e) => return Err(format!("{}: failed with {e:?} although the sink raised no error", what())),
                        Ok(x) if x != *at => return Err(format!("{}: returned {x}, must return {at}", what())),
                        Ok(_) => {}
                    }
                    if w.len() != *end || received.len() != *end {
                        return Err(format!("{}: len() is {}, must be {end}", what(), w.len()));
                    }
                }
                // A failed Writer may be used on, with nothing promised about where
                // values go, but its length stays honest.
                if failed_in.is_some() {
                    for (o, how, vals, _, _) in calls.iter().take(2) {
                        let _ = real(o, &mut w, *how, vals);
                        if w.len() > sink.len() {
                            return Err(format!(
                                "writing on after a failure, faults {faults:?}: len() is {}, the sink received {} bytes",
                                w.len(),
                                sink.len()
                            ));
                        }
                    }
                }
                // The same history with a hard error at every single byte.
                if n <= 600 {
                    for k in 0..n {
                        let fault = if k % 5 == 4 { Fault::Full } else { Fault::Error((k % crate::sink::ERRORS as usize) as u8) };
                        let sink = Sink::with_faults(vec![(k, fault)]);
                        let mut w = AnyWriter::new(h.std, &sink);
                        let mut failed = false;
                        for (o, how, vals, at, end) in &calls {
                            let r = real(o, &mut w, *how, vals);
                            let raised = !sink.0.borrow().raised.is_empty();
                            let ok = match &r {
                                Ok(x) => !raised && x == at && w.len() == *end,
                                Err(e) => raised && sink.0.borrow().raised[0].is(e),
                            };
                            if !ok || w.len() > sink.len() || sink.bytes()[..] != m.out[..sink.len().min(n)] {
                                return Err(format!(
                                    "{fault:?} at byte {k}, {how:?} of {} values of {}: {r:?}, len() {}, sink received {} of {n} bytes",
                                    vals.len(),
                                    show(&o.ty),
                                    w.len(),
                                    sink.len()
                                ));
                            }
                            if r.is_err() {
                                failed = true;
                                break;
                            }
                        }
                        if !failed {
                            return Err(format!("{fault:?} at byte {k} of {n} was not reported"));
                        }
                    }
                    st.class("error tried at every byte");
                }
                let s = sink.0.borrow();
                if f.chunk > 0 {
                    st.class("sink takes few bytes per call");
                }
                if faults.iter().any(|x| matches!(x.1, Fault::Interrupts(n) if n > 8)) {
                    st.class("long run of interruptions");
                }
                if s.shorts > 0 {
                    st.class("with short writes");
                }
                if s.interrupts > 0 {
                    st.class("with interruptions");
                }
                match failed_in {
                    Some((i, at)) => {
                        st.class(format!("failed: {:?}", s.raised[0].kind));
                        st.class(if i == 0 { "failed in first call" } else { "failed in later call" });
                        let start = if i == 0 { 0 } else { calls[i - 1].4 };
                        st.class(if at < calls[i].3 && at >= start {
                            "failed in padding"
                        } else {
                            "failed in data"
                        });
                    }
                    None => st.class("completed"),
                }
                if failed_in.is_some() || s.shorts + s.interrupts > 0 {
                    st.nontrivial(
                        &serde_json::to_string(f).unwrap(),
                        || json!({"history": describe(reg, h), "faults (byte, kind)": format!("{faults:?}"), "failed": format!("{failed_in:?}")}),
                    );
                }
                Ok(())
            },
            |f| used(reg, &f.h),
        );
    }
}

// C13
fn dynamic(run: &mut Run) {
    each_type(
        run,
        |o| o.dynamic.is_some(),
        |o, w, st| {
            let (align, size_of, size_static, bytes, back) = o.dynamic.unwrap()(w);
            let inner = (o.encode)(w);
            let want = o.align.max(256);
            if align != want {
                return Err(format!("DynamicUniform alignment is {align}, must be {want} (inner {})", o.align));
            }
            if size_of != o.size_of || size_static != o.size_static || bytes.len() != o.size_of {
                return Err(format!(
                    "DynamicUniform size is {size_of} (query {size_static}, bytes {}), inner size is {}",
                    bytes.len(),
                    o.size_of
                ));
            }
            if bytes != inner {
                return Err(format!("DynamicUniform bytes {} differ from the value's {}", hex(&bytes), hex(&inner)));
            }
            if back != w {
                return Err(format!("DynamicUniform converts back to {:?}", whex(&back)));
            }
            if o.align > 256 {
                st.class("inner alignment over 256");
            }
            // Structs with such fields.
            if model::contains(&o.ty, &|t| matches!(t, Ty::Dyn(_))) {
                st.class("values of structs with DynamicUniform fields");
                check_shape(o)?;
                check_components(o, w, &inner)?;
                if (o.there_and_back)(w) != w {
                    return Err("does not round-trip".into());
                }
            }
            Ok(())
        },
    );
    let cases = run.cases;
    if !both_stds(run.reg).contains(&Std::Std140) {
        return;
    }
    let reg = run.reg;
    // Positions, mixed with ordinary writes; at least half dynamic.
    run.forall(
        "dynamic history",
        cases * 4,
        history(reg, Std::Std140, vec![How::Dynamic, How::DynamicSlice, How::Dynamic, How::Write], 8, false),
        |reg, h: &History, st| {
            let sink = Sink::new();
            let mut w = AnyWriter::new(h.std, &sink);
            let mut s = AnySizer::new(h.std);
            let mut m = ModelWriter { base: 0, out: vec![] };
            let mut dynamics = 0;
            for (i, op) in h.ops.iter().enumerate() {
                let o = reg.find(&op.ty, h.std);
                let vals = op_values(o, op);
                let before = m.out.len();
                let want = m.apply(o, op.how, &vals);
                let got = real(o, &mut w, op.how, &vals).map_err(|e| e.to_string())?;
                let mut sz = s.len();
                for k in 0..vals.len() {
                    let a = if op.how == How::Write {
                        (o.sizer_add)(&mut s)
                    } else {
                        o.dynamic_sizer.unwrap()(&mut s)
                    };
                    if k == 0 {
                        sz = a;
                    }
                }
                if got != want || sz != want || w.len() != m.out.len() || s.len() != m.out.len() {
                    return Err(format!(
                        "call {i} ({:?} of {} values of {} at length {before}): Writer {got} (length {}), Sizer {sz} (length {}), must be {want} (length {})",
                        op.how,
                        vals.len(),
                        show(&o.ty),
                        w.len(),
                        s.len(),
                        m.out.len()
                    ));
                }
                if op.how != How::Write {
                    dynamics += vals.len();
                }
            }
            if sink.bytes() != m.out {
                return Err("output differs from the model".into());
            }
            if dynamics >= 2 {
                st.class("histories with 2+ dynamic values");
                st.nontrivial(&history_key(h), || describe(reg, h));
            }
            Ok(())
        },
        |h| used(reg, h),
    );
}

// C15
/// A strict parser for `struct NAME { TYPE NAME; ... };`
pub fn parse_struct(src: &str) -> Result<(String, Vec<(String, String)>), String> {
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    for c in src.chars() {
        if c.is_ascii_alphanumeric() || c == '_' {
            cur.push(c);
        } else {
            if !cur.is_empty() {
                toks.push(std::mem::take(&mut cur));
            }
            if c.is_ascii_whitespace() {
                continue;
            }
            if "{};".contains(c) {
                toks.push(c.to_string());
            } else {
                return Err(format!("unexpected character {c:?}"));
            }
        }
    }
    if !cur.is_empty() {
        toks.push(cur);
    }
    let mut it = toks.into_iter();
    let mut next = || it.next().ok_or("unexpected end".to_string());
    let ident = |s: String| {
        if s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') {
            Ok(s)
        } else {
            Err(format!("expected an identifier, found {s:?}"))
        }
    };
    if next()? != "struct" {
        return Err("does not start with `struct`".into());
    }
    let name = ident(next()?)?;
    if next()? != "{" {
        return Err("no `{` after the struct's name".into());
    }
    let mut fields = vec![];
    loop {
        let t = next()?;
        if t == "}" {
            break;
        }
        let t = ident(t)?;
        let n = ident(next()?)?;
        if next()? != ";" {
            return Err(format!("no `;` after member {n}"));
        }
        fields.push((t, n));
    }
    if next()? != ";" {
        return Err("no `;` at the end".into());
    }
    if next().is_ok() {
        return Err("text after the definition".into());
    }
    Ok((name, fields))
}

fn glsl_text(run: &mut Run) {
    for i in 0..run.reg.ops.len() {
        let o = &run.reg.ops[i];
        let Some(_) = &o.glsl else { continue };
        let case = o.case;
        classify_type(o, &mut run.stats.borrow_mut());
        run.forall(
            &format!("{} {}", o.name, o.std.name()),
            1,
            Just(One {
                ty: o.name.clone(),
                std: o.std,
                raw: vec![],
            }),
            |reg, i: &One, st| {
                let o = reg.find(&i.ty, i.std);
                let g = o.glsl.as_ref().unwrap();
                let ctx = |e: String| format!("{}: {} (schema {})", o.name, e, show(&o.ty));
                match &o.ty {
                    Ty::Struct { name, fields } => {
                        let want: Vec<(String, String)> = fields
                            .iter()
                            .map(|(n, t)| {
                                (
                                    match t {
                                        Ty::Prim(p) => p.glsl(),
                                        Ty::Struct { name, .. } => name.clone(),
                                        Ty::Dyn(_) => panic!("harness: dynamic field in GLSL"),
                                    },
                                    n.clone(),
                                )
                            })
                            .collect();
                        let def = g.definition.as_ref().unwrap();
                        let (n, f) = parse_struct(def).map_err(|e| ctx(format!("definition does not parse: {e}; {def:?}")))?;
                        if n != *name || g.name != name {
                            return Err(ctx(format!("named {n:?} in the definition and {:?} by the trait, must be {name:?}", g.name)));
                        }
                        if f != want {
                            return Err(ctx(format!("definition has members {f:?}, must be {want:?}")));
                        }
                        if *g.fields.as_ref().unwrap() != want {
                            return Err(ctx(format!("FIELDS are {:?}, must be {want:?}", g.fields.as_ref().unwrap())));
                        }
                        if fields.len() >= 2 {
                            st.nontrivial(&(&o.name, def), || json!({"definition": def}));
                        }
                    }
                    Ty::Prim(p) => {
                        if g.name != p.glsl() {
                            return Err(ctx(format!("GLSL name is {:?}, must be {:?}", g.name, p.glsl())));
                        }
                        st.nontrivial(&(&o.name, g.name), || json!({"type": o.name, "glsl": g.name}));
                    }
                    Ty::Dyn(_) => {}
                }
                Ok(())
            },
            move |_| vec![case],
        );
    }
}

// C20
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Array {
    std: Std,
    header: Vec<(String, Vec<u64>)>,
    ty: String,
    vals: Vec<Vec<u64>>,
}
fn glslable(t: &Ty) -> bool {
    !model::contains(t, &|t| matches!(t, Ty::Dyn(_) | Ty::Prim(Prim::Custom { .. })))
}
fn arrays(run: &mut Run) {
    let cases = run.cases;
    for i in 0..run.reg.ops.len() {
        let o = &run.reg.ops[i];
        if !glslable(&o.ty) || o.model.size == 0 {
            continue;
        }
        classify_type(o, &mut run.stats.borrow_mut());
        let (std, case, name) = (o.std, o.case, o.name.clone());
        let reg = run.reg;
        let headers = names(reg, std, &|o| glslable(&o.ty));
        let known = run.known.clone();
        let strat = (
            prop::collection::vec((prop::sample::select(headers), values::raw(3)), 0..4),
            prop_oneof![10 => 1usize..6, 1 => 6usize..50].prop_flat_map(|n| prop::collection::vec(values::raw(12), n)),
        )
            .prop_map(move |(header, vals)| Array {
                std,
                header,
                ty: name.clone(),
                vals,
            });
        run.forall(
            &format!("{} {}", o.name, o.std.name()),
            cases,
            strat,
            move |reg, a: &Array, st| {
                let o = reg.find(&a.ty, a.std);
                let vals: Vec<Vec<u64>> = a.vals.iter().map(|r| model::stretch(r, &o.kinds)).collect();
                let sink = Sink::new();
                let mut w = AnyWriter::new(a.std, &sink);
                for (t, raw) in &a.header {
                    let p = reg.find(t, a.std);
                    (p.write)(&mut w, &model::stretch(raw, &p.kinds)).map_err(|e| e.to_string())?;
                }
                let base = w.len();
                let got = (o.write_slice)(&mut w, &vals).map_err(|e| e.to_string())?;
                let out = sink.bytes();
                // GLSL: the base alignment of an array is that of its element,
                // in std140 rounded up to that of a vec4; the stride is the
                // element's size rounded up to it.
                let glsl_align = if a.std == Std::Std140 { model::up(o.model.align, 16) } else { o.model.align };
                let sig = format!("{} {}", a.std.name(), show(&o.ty));
                let is_known = known.contains(&sig);
                let align = if is_known { o.model.align } else { glsl_align };
                let stride = model::up(o.model.size, align);
                let first = model::up(base, align);
                let what = || format!("slice of {} {} in {} after {} bytes", vals.len(), show(&o.ty), a.std.name(), base);
                if got != first {
                    return Err(format!("{}: first element at {got}, a shader reads it at {first}", what()));
                }
                for (i, v) in vals.iter().enumerate() {
                    let at = first + i * stride;
                    for (c, x) in o.comps.iter().zip(v) {
                        let n = c.kind.size();
                        let p = at + c.offset;
                        if p + n > out.len()
                            || model::read_raw(
                                &model::Comp {
                                    offset: p,
                                    kind: c.kind,
                                    path: String::new(),
                                },
                                &out,
                            ) != *x
                        {
                            return Err(format!(
                                "{}: component {} of element {i} is not at byte {p} (array stride {stride}); output {}",
                                what(),
                                c.path,
                                hex(&out)
                            ));
                        }
                    }
                }
                if is_known && vals.len() >= 2 && stride != model::up(o.model.size, glsl_align) {
                    *st.known.entry(sig).or_default() += 1;
                }
                if base % align != 0 {
                    st.class("array starts after a gap");
                }
                // Non-trivial: two or more elements (the stride is observable).
                if vals.len() >= 2 {
                    st.nontrivial(
                        &serde_json::to_string(a).unwrap(),
                        || json!({"layout": a.std.name(), "element": show(&o.ty), "length": vals.len(), "after bytes": base}),
                    );
                }
                Ok(())
            },
            move |a| {
                let mut v: Vec<usize> = a.header.iter().map(|p| reg.find(&p.0, std).case).collect();
                v.push(case);
                v.sort();
                v.dedup();
                v
            },
        );
    }
}

/// For the GPU and naga checks: prints, per struct, everything crevice says.
fn dump(run: &mut Run) {
    let cases = run.cases;
    for i in 0..run.reg.ops.len() {
        let o = &run.reg.ops[i];
        if !is_struct(o) || o.glsl.is_none() {
            continue;
        }
        let case = o.case;
        run.forall(
            &format!("{} {}", o.name, o.std.name()),
            cases,
            (prop::collection::vec(values::word(), o.kinds.len().clamp(1, 64)), 0usize..4, any::<u16>()).prop_map(|(a, b, c)| (a, b, c)),
            move |reg, (raw, n, salt): &(Vec<u64>, usize, u16), _| {
                let o = &reg.ops[i];
                let words = gpu_words(&model::stretch(raw, &o.kinds), &o.kinds);
                let g = o.glsl.as_ref().unwrap();
                // A block with a header and a runtime array of the struct.
                let sink = Sink::new();
                let mut w = AnyWriter::new(o.std, &sink);
                let header = 0xC0DE_0000u32 | *salt as u32;
                let mut elems = vec![];
                for k in 0..n + 1 {
                    let v: Vec<u64> = words
                        .iter()
                        .zip(&o.kinds)
                        .map(|(x, kd)| gpu_word(kd.canon(x.wrapping_add((k as u64) << 8)), *kd))
                        .collect();
                    elems.push(v);
                }
                let u = reg.ops.iter().find(|p| p.ty == Ty::Prim(Prim::Scalar(Kind::U32)) && p.std == o.std);
                let Some(u) = u else { return Err("harness: no uint".into()) };
                (u.write)(&mut w, &[header as u64]).map_err(|e| e.to_string())?;
                (o.write_slice)(&mut w, &elems).map_err(|e| e.to_string())?;
                let size_ok = o.size_of == o.model.size;
                println!(
                    "DUMP {}",
                    json!({
                        "case": o.case, "type": o.name, "std": o.std, "schema": o.ty, "raw": raw,
                        "words": words, "bytes": hex(&(o.encode)(&words)), "align": o.align, "size_ok": size_ok,
                        "name": g.name, "definition": g.definition, "fields": g.fields,
                        "array": {"header": header, "elems": elems, "bytes": hex(&sink.bytes())},
                    })
                );
                Ok(())
            },
            move |_| vec![case],
        );
    }
    // Definitions of every struct, by case, for nesting.
}

/// Restricts a component to what shaders handle exactly: finite, not subnormal
/// floats; doubles that are exactly representable as floats; booleans 0/1.
fn gpu_word(w: u64, k: Kind) -> u64 {
    match k {
        Kind::F32 => {
            let e = (w >> 23) & 0xff;
            if e == 0 || e == 255 {
                (w & !(0xff << 23)) | (127 << 23)
            } else {
                w
            }
        }
        Kind::F64 => {
            let f = f32::from_bits(gpu_word(w & 0xffff_ffff, Kind::F32) as u32);
            (f as f64).to_bits()
        }
        _ => w,
    }
}
fn gpu_words(w: &[u64], k: &[Kind]) -> Vec<u64> {
    w.iter().zip(k).map(|(w, k)| gpu_word(*w, *k)).collect()
}
