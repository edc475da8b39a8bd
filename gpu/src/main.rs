//! Gives generated GLSL to an independent GLSL front end (naga) and compares
//! where it places each member with where crevice's bytes hold it (`layout`),
//! or reads the values back in a compute shader on a Vulkan device (`run`).
//!
//! Input: one JSON job per line. Output: one JSON result per line.

#[path = "../../harness/src/model.rs"]
#[allow(dead_code)]
mod model;
mod glsl;
mod vulkan;

use model::{Std, Ty};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};

#[derive(Deserialize, Clone)]
pub struct Job {
    pub id: usize,
    pub std: Std,
    pub schema: Ty,
    /// Generated definitions, dependencies first; the root is last.
    pub definitions: Vec<String>,
    pub name: String,
    pub values: Vec<Value>,
}

#[derive(Deserialize, Clone)]
pub struct Value {
    pub words: Vec<u64>,
    pub bytes: String,
    pub header: u32,
    pub elems: Vec<Vec<u64>>,
    pub array: String,
}

#[derive(Serialize, Default)]
pub struct Answer {
    pub id: usize,
    pub fail: Option<String>,
    /// Why nothing could be said, by block form.
    pub discarded: Vec<String>,
    pub blocks: u64,
    pub components: u64,
    pub sample: Option<serde_json::Value>,
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    let input = std::io::stdin().lock();
    let gpu = if mode == "run" { Some(vulkan::Gpu::new()) } else { None };
    let mut out = std::io::stdout().lock();
    for l in input.lines() {
        let job: Job = serde_json::from_str(&l.unwrap()).unwrap();
        let mut a = Answer { id: job.id, ..Answer::default() };
        if let Err(m) = judge(&job, &mut a, gpu.as_ref()) {
            a.fail = Some(m);
        }
        writeln!(out, "ANSWER {}", serde_json::to_string(&a).unwrap()).unwrap();
    }
}

/// Reads a component at `offset`.
fn read(kind: model::Kind, bytes: &[u8], offset: usize) -> Option<u64> {
    let b = bytes.get(offset..offset + kind.size())?;
    let mut x = [0u8; 8];
    x[..b.len()].copy_from_slice(b);
    Some(u64::from_ne_bytes(x))
}

fn judge(job: &Job, a: &mut Answer, gpu: Option<&vulkan::Gpu>) -> Result<(), String> {
    let defs: Vec<glsl::Struct> = job
        .definitions
        .iter()
        .map(|d| glsl::parse(d).ok_or_else(|| format!("the generated definition is not a GLSL struct: {d}")))
        .collect::<Result<_, _>>()?;
    let reference = glsl::reference(&job.schema);
    let m = job.std.name();
    let mut forms = vec![];
    for form in [glsl::Form::Flat, glsl::Form::Whole, glsl::Form::Array] {
        forms.push((form, "readonly buffer"));
        if job.std == Std::Std140 && form != glsl::Form::Array {
            forms.push((form, "uniform"));
        }
    }
    let kinds = model::kinds(&job.schema);
    for (form, space) in forms {
        let what = format!("{m} {space} {form:?}");
        // What naga makes of a correct definition; and whether naga is right.
        let text = glsl::block(&reference, m, space, form, "");
        let l = match glsl::layout(&text, form) {
            Ok(l) => l,
            Err(e) => {
                a.discarded.push(format!("{what}: naga rejects the reference: {e}"));
                continue;
            }
        };
        if let Err(e) = glsl::agrees(&l, &job.schema, job.std, form) {
            a.discarded.push(format!("{what}: naga lays out the reference otherwise: {e}"));
            continue;
        }
        // The generated definition.
        let text = glsl::block(&defs, m, space, form, "");
        let got = glsl::layout(&text, form).map_err(|e| format!("{what}: a GLSL compiler rejects the generated definition: {e}\n{text}"))?;
        a.blocks += 1;
        if gpu.is_none() {
            let names: Vec<String> = model::comps(&job.schema, job.std).into_iter().map(|c| c.path).collect();
            if got.comps.len() != kinds.len() {
                return Err(format!("{what}: the generated definition has {} components, the struct has {}\n{text}", got.comps.len(), kinds.len()));
            }
            for (i, c) in got.comps.iter().enumerate() {
                if c.path != names[i] || c.kind != if kinds[i] == model::Kind::Bool { model::Kind::U32 } else { kinds[i] } {
                    return Err(format!("{what}: component {i} is {} ({:?}) in the generated definition, and {} ({:?}) in the struct\n{text}", c.path, c.kind, names[i], kinds[i]));
                }
            }
            for v in &job.values {
                let bytes = unhex(&v.bytes);
                let check = |bytes: &[u8], base: usize, words: &[u64]| {
                    for (c, w) in got.comps.iter().zip(words) {
                        let r = read(c.kind, bytes, base + c.offset);
                        if r != Some(*w) {
                            return Err(format!(
                                "{what}: a shader reads {} at offset {} and finds {:x?} instead of {w:#x}\nbytes: {bytes:02x?}\n{text}",
                                c.path,
                                base + c.offset,
                                r
                            ));
                        }
                    }
                    Ok(())
                };
                match form {
                    glsl::Form::Array => {
                        let bytes = unhex(&v.array);
                        if read(model::Kind::U32, &bytes, 0) != Some(v.header as u64) {
                            return Err(format!("{what}: the header is not at offset 0"));
                        }
                        for (k, e) in v.elems.iter().enumerate() {
                            check(&bytes, got.base + k * got.stride, e).map_err(|m| format!("element {k}: {m}"))?;
                            a.components += e.len() as u64;
                        }
                        let need = got.base + v.elems.len() * got.stride;
                        if bytes.len() != need {
                            return Err(format!("{what}: the written array ends at {}, a shader's at {need}", bytes.len()));
                        }
                    }
                    _ => {
                        check(&bytes, 0, &v.words)?;
                        a.components += v.words.len() as u64;
                        if bytes.len() != got.size {
                            return Err(format!("{what}: the block's data take {} bytes, the value has {}\n{text}", got.size, bytes.len()));
                        }
                    }
                }
            }
        } else {
            let gpu = gpu.unwrap();
            let shader = glsl::reader(&defs, &got, m, space, form);
            let spv = match glsl::spirv(&shader) {
                Ok(s) => s,
                Err(e) => {
                    let r = glsl::reader(&reference, &l, m, space, form);
                    if glsl::spirv(&r).is_ok() {
                        return Err(format!("{what}: the generated definition does not compile: {e}\n{shader}"));
                    }
                    a.discarded.push(format!("{what}: naga cannot compile the shader: {e}"));
                    continue;
                }
            };
            let program = gpu.program(&spv, space == "uniform");
            for v in &job.values {
                let (bytes, want): (Vec<u8>, Vec<&Vec<u64>>) = match form {
                    glsl::Form::Array => (unhex(&v.array), v.elems.iter().collect()),
                    _ => (unhex(&v.bytes), vec![&v.words]),
                };
                if bytes.is_empty() || kinds.is_empty() {
                    continue;
                }
                let out = program.run(&bytes, want.len() as u32, 2 + want.len() * kinds.len());
                let mut expect: Vec<u32> = vec![if form == glsl::Form::Array { v.header } else { 1 }, 1];
                for e in &want {
                    for (w, k) in e.iter().zip(&kinds) {
                        expect.push(glsl::as_seen(*k, *w));
                    }
                }
                a.components += expect.len() as u64;
                if let Some(i) = (0..expect.len()).find(|i| expect[*i] != out[*i]) {
                    let who = match i {
                        0 => "the header".to_string(),
                        1 => "a constant".to_string(),
                        _ => format!("element {}, {}", (i - 2) / kinds.len(), got.comps[(i - 2) % kinds.len()].path),
                    };
                    return Err(format!("{what}: a shader sees {:#x} as {who}, the program uploaded {:#x}\nbytes: {bytes:02x?}\n{shader}", out[i], expect[i]));
                }
                if a.sample.is_none() && kinds.len() > 3 {
                    let n = expect.len().min(8);
                    a.sample = Some(serde_json::json!({"block": what, "definitions": job.definitions, "first_words_seen_by_the_shader": &out[..n]}));
                }
            }
        }
        if a.sample.is_none() && kinds.len() > 3 {
            let s: BTreeMap<String, usize> = got.comps.iter().take(8).map(|c| (c.path.clone(), c.offset)).collect();
            a.sample = Some(serde_json::json!({"block": what, "definitions": job.definitions, "offsets": s}));
        }
    }
    Ok(())
}
