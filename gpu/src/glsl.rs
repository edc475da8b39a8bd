//! GLSL text, and naga's view of it.

use crate::model::{self, Kind, Prim, Std, Ty};
use naga::{ArraySize, ScalarKind, TypeInner};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    /// The root's members are the block's members.
    Flat,
    /// The block has one member of the root's type.
    Whole,
    /// A uint and a runtime-sized array of the root's type.
    Array,
}

#[derive(Clone, Debug)]
pub struct Struct {
    pub name: String,
    /// (type, name)
    pub members: Vec<(String, String)>,
}

pub fn parse(d: &str) -> Option<Struct> {
    let mut tokens = vec![];
    let mut cur = String::new();
    for c in d.chars() {
        if c.is_whitespace() || "{};".contains(c) {
            if !cur.is_empty() {
                tokens.push(std::mem::take(&mut cur));
            }
            if !c.is_whitespace() {
                tokens.push(c.to_string());
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        return None;
    }
    let mut t = tokens.into_iter();
    if t.next()? != "struct" {
        return None;
    }
    let name = t.next()?;
    if t.next()? != "{" {
        return None;
    }
    let mut members = vec![];
    loop {
        let ty = t.next()?;
        if ty == "}" {
            break;
        }
        let n = t.next()?;
        if t.next()? != ";" {
            return None;
        }
        members.push((ty, n));
    }
    (t.next()? == ";" && t.next().is_none()).then_some(Struct { name, members })
}

/// What the definitions should be.
pub fn reference(ty: &Ty) -> Vec<Struct> {
    fn go(ty: &Ty, out: &mut Vec<Struct>) {
        if let Ty::Struct { name, fields } = ty {
            for (_, f) in fields {
                go(f, out);
            }
            if !out.iter().any(|s| s.name == *name) {
                let members = fields
                    .iter()
                    .map(|(n, f)| {
                        let t = match f {
                            Ty::Prim(p) => p.glsl(),
                            Ty::Struct { name, .. } => name.clone(),
                            Ty::Dyn(_) => "none".into(),
                        };
                        (t, n.clone())
                    })
                    .collect();
                out.push(Struct { name: name.clone(), members });
            }
        }
    }
    let mut v = vec![];
    go(ty, &mut v);
    v
}

/// The same member in words that naga handles: booleans are stored as uint;
/// two-row matrices and structs have the layout of arrays.
fn member(structs: &[Struct], (ty, name): &(String, String)) -> String {
    match ty.as_str() {
        "bool" => format!("uint {name};"),
        "bvec2" | "bvec3" | "bvec4" => format!("u{} {name};", &ty[1..]),
        "mat2" => format!("vec2 {name}[2];"),
        "dmat2" => format!("dvec2 {name}[2];"),
        _ if structs.iter().any(|s| s.name == *ty) => format!("{ty} {name}[1];"),
        _ => format!("{ty} {name};"),
    }
}

pub fn block(structs: &[Struct], std: &str, space: &str, form: Form, more: &str) -> String {
    let mut o = String::from("#version 450\nlayout(local_size_x = 1) in;\n");
    for s in structs {
        o += &format!("struct {} {{\n", s.name);
        for m in &s.members {
            o += &format!("    {}\n", member(structs, m));
        }
        o += "};\n";
    }
    let root = structs.last().unwrap();
    o += &format!("layout({std}, set = 0, binding = 0) {space} TheBlock_ {{\n");
    match form {
        Form::Flat => {
            for m in &root.members {
                o += &format!("    {}\n", member(structs, m));
            }
        }
        Form::Whole => o += &format!("    {} the_value_[1];\n", root.name),
        // An array of one, because naga cannot read a lone scalar there. The array
        // after it has at least the alignment that makes no difference.
        Form::Array => o += &format!("    uint the_count_[1];\n    {} the_items_[];\n", root.name),
    }
    o += "} the_block_;\n";
    o += if more.is_empty() { "void main() {}\n" } else { more };
    o
}

#[derive(Clone, Debug)]
pub struct Comp {
    pub path: String,
    pub kind: Kind,
    pub offset: usize,
    /// Expression that reads it, after the block or element.
    pub access: String,
}
#[derive(Clone, Debug)]
pub struct Layout {
    /// Relative to the struct.
    pub comps: Vec<Comp>,
    pub base: usize,
    pub stride: usize,
    pub size: usize,
}

fn parse_module(text: &str) -> Result<naga::Module, String> {
    let o = naga::front::glsl::Options { stage: naga::ShaderStage::Compute, defines: Default::default() };
    naga::front::glsl::Frontend::default().parse(&o, text).map_err(|e| e.errors.iter().map(|e| format!("{:?}", e.kind)).collect::<Vec<_>>().join("; "))
}

fn walk(m: &naga::Module, ty: naga::Handle<naga::Type>, base: usize, path: &str, access: &str, out: &mut Vec<Comp>) -> Result<(), String> {
    const XYZW: [&str; 4] = ["x", "y", "z", "w"];
    let kind = |s: &naga::Scalar| match (s.kind, s.width) {
        (ScalarKind::Float, 4) => Ok(Kind::F32),
        (ScalarKind::Float, 8) => Ok(Kind::F64),
        (ScalarKind::Sint, 4) => Ok(Kind::I32),
        (ScalarKind::Uint, 4) => Ok(Kind::U32),
        x => Err(format!("{path}: unexpected scalar {x:?}")),
    };
    match &m.types[ty].inner {
        TypeInner::Scalar(s) => out.push(Comp { path: path.into(), kind: kind(s)?, offset: base, access: access.into() }),
        TypeInner::Vector { size, scalar } => {
            let k = kind(scalar)?;
            for i in 0..*size as usize {
                out.push(Comp { path: format!("{path}.{}", XYZW[i]), kind: k, offset: base + i * k.size(), access: format!("{access}.{}", XYZW[i]) });
            }
        }
        TypeInner::Matrix { columns, rows, scalar } => {
            let k = kind(scalar)?;
            // As naga strides columns.
            let stride = if *rows == naga::VectorSize::Bi { 2 } else { 4 } * k.size();
            for c in 0..*columns as usize {
                for r in 0..*rows as usize {
                    out.push(Comp {
                        path: format!("{path}[{c}].{}", XYZW[r]),
                        kind: k,
                        offset: base + c * stride + r * k.size(),
                        access: format!("{access}[{c}].{}", XYZW[r]),
                    });
                }
            }
        }
        TypeInner::Array { base: b, size: ArraySize::Constant(n), stride } => {
            // A struct in an array of one, or a two-row matrix.
            let one = matches!(m.types[*b].inner, TypeInner::Struct { .. });
            for i in 0..n.get() as usize {
                let p = if one { path.to_string() } else { format!("{path}[{i}]") };
                walk(m, *b, base + i * *stride as usize, &p, &format!("{access}[{i}]"), out)?;
            }
        }
        TypeInner::Struct { members, .. } => {
            for f in members {
                let n = f.name.clone().unwrap_or_default();
                let p = if path.is_empty() { n.clone() } else { format!("{path}.{n}") };
                walk(m, f.ty, base + f.offset as usize, &p, &format!("{access}.{n}"), out)?;
            }
        }
        x => return Err(format!("{path}: unexpected type {x:?}")),
    }
    Ok(())
}

/// Where naga places the struct's components in the block.
pub fn layout(text: &str, form: Form) -> Result<Layout, String> {
    let m = parse_module(text)?;
    let g = m.global_variables.iter().find(|g| g.1.binding.is_some()).ok_or("no block")?.1;
    let TypeInner::Struct { members, span } = &m.types[g.ty].inner else { return Err("the block is no struct".into()) };
    let mut comps = vec![];
    match form {
        Form::Flat => {
            walk(&m, g.ty, 0, "", "", &mut comps)?;
            for c in &mut comps {
                c.access = c.access.trim_start_matches('.').to_string();
            }
            // The block's own end is the business of naga and of nobody else in
            // std140, where a structure's size is rounded up to 16.
            let size = if text.contains("layout(std140") { span.div_ceil(16) * 16 } else { *span } as usize;
            Ok(Layout { comps, base: 0, stride: 0, size })
        }
        Form::Whole | Form::Array => {
            let f = members.last().ok_or("no member")?;
            let TypeInner::Array { base, stride, .. } = &m.types[f.ty].inner else { return Err("no array".into()) };
            walk(&m, *base, 0, "", "", &mut comps)?;
            for c in &mut comps {
                c.access = c.access.trim_start_matches('.').to_string();
            }
            Ok(Layout { comps, base: f.offset as usize, stride: *stride as usize, size: *stride as usize })
        }
    }
}

/// Is naga's layout of the reference the one of the specification?
pub fn agrees(l: &Layout, ty: &Ty, std: Std, form: Form) -> Result<(), String> {
    let c = model::comps(ty, std);
    let m = model::layout(ty, std);
    if c.len() != l.comps.len() {
        return Err(format!("{} components, not {}", l.comps.len(), c.len()));
    }
    for (a, b) in l.comps.iter().zip(&c) {
        if a.offset != b.offset || a.path != b.path {
            return Err(format!("{} at {}, not {} at {}", a.path, a.offset, b.path, b.offset));
        }
    }
    let base = if form == Form::Array { model::up(4, m.align) } else { 0 };
    if l.base != base || l.size != m.size && form != Form::Array || form == Form::Array && l.stride != m.size {
        return Err(format!("base {} size {} stride {}, not base {base} size {}", l.base, l.size, l.stride, m.size));
    }
    Ok(())
}

/// A compute shader that copies every component to an output buffer.
pub fn reader(structs: &[Struct], l: &Layout, std: &str, space: &str, form: Form) -> String {
    let n = l.comps.len();
    let mut b = String::from("layout(std430, set = 0, binding = 1) buffer TheOut_ { uint the_words_[]; } the_out_;\nvoid main() {\n    uint k = gl_GlobalInvocationID.x;\n");
    match form {
        Form::Array => b += "    the_out_.the_words_[0] = the_block_.the_count_[0];\n    the_out_.the_words_[1] = 1u;\n",
        _ => b += "    the_out_.the_words_[0] = 1u;\n    the_out_.the_words_[1] = 1u;\n",
    }
    b += &format!("    uint o = 2u + k * {n}u;\n");
    for (i, c) in l.comps.iter().enumerate() {
        let place = match form {
            Form::Flat => format!("the_block_.{}", c.access),
            Form::Whole => format!("the_block_.the_value_[0].{}", c.access),
            Form::Array => format!("the_block_.the_items_[k].{}", c.access),
        };
        let e = match c.kind {
            Kind::F32 => format!("floatBitsToUint({place})"),
            Kind::F64 => format!("floatBitsToUint(float({place}))"),
            _ => format!("uint({place})"),
        };
        b += &format!("    the_out_.the_words_[o + {i}u] = {e};\n");
    }
    b += "}\n";
    block(structs, std, space, form, &b)
}

/// What the shader makes of a component.
pub fn as_seen(k: Kind, w: u64) -> u32 {
    match k {
        Kind::F64 => (f64::from_bits(w) as f32).to_bits(),
        _ => w as u32,
    }
}

pub fn spirv(text: &str) -> Result<Vec<u32>, String> {
    let m = parse_module(text)?;
    // GLSL's layouts are not WGSL's, so struct layouts are not naga's to judge.
    let flags = naga::valid::ValidationFlags::all() & !naga::valid::ValidationFlags::STRUCT_LAYOUTS;
    let info = naga::valid::Validator::new(flags, naga::valid::Capabilities::all()).validate(&m).map_err(|e| format!("{:?}", e.into_inner()))?;
    let o = naga::back::spv::Options { lang_version: (1, 3), ..Default::default() };
    naga::back::spv::write_vec(&m, &info, &o, None).map_err(|e| e.to_string())
}

#[allow(dead_code)]
pub fn prim(p: Prim) -> String {
    p.glsl()
}
