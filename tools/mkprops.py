#!/usr/bin/env python3
"""Writes properties.jsonl (the single place the statements are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=hook)))

D='crevice-derive/src/layout.rs'
p('C01','Derived std140 structs are laid out by the GLSL std140 rules',
  "For every struct that derives AsStd140 (any number, order and nesting of supported fields), the bytes of its std140 value hold every scalar component, in native byte order, at exactly the offset that the GLSL std140 layout rules assign to that component. "
  "The size of the value and the alignment it reports are those of a std140 structure: alignment is the largest member alignment raised to a multiple of 16, and the size is rounded up to that alignment.",
  ['programs','inputs'],'every struct definition over the supported field types, nested to any depth, and every value of it',
  'The tests assert offsets for about fifteen hand-written structs of one to four fields; the guarantee is about every sequence and nesting of members.',
  [D,'src/internal.rs','src/std140/primitives.rs','src/std140/traits.rs'],
  [('padding functions emitted per field',D+' pad_fn_impls'),('struct alignment',D+' struct_alignment, src/internal.rs max_arr'),('alignment arithmetic','src/internal.rs align_offset')],
  ['AsStd140::as_std140(..).as_bytes()','Std140::ALIGNMENT','AsStd140::std140_size_static'])
p('C02','Derived std430 structs are laid out by the GLSL std430 rules',
  "For every struct that derives AsStd430 (any number, order and nesting of supported fields), the bytes of its std430 value hold every scalar component, in native byte order, at exactly the offset that the GLSL std430 layout rules assign to that component. "
  "The size of the value and the alignment it reports are those of a std430 structure: alignment is the largest member alignment (without rounding to 16), and the size is rounded up to that alignment.",
  ['programs','inputs'],'every struct definition over the supported field types, nested to any depth, and every value of it',
  'Only three structs and one bare matrix have their std430 layout asserted at all.',
  [D,'src/internal.rs','src/std430/primitives.rs','src/std430/traits.rs'],
  [('padding functions emitted per field',D+' pad_fn_impls'),('struct alignment',D+' struct_alignment, src/internal.rs max_arr')],
  ['AsStd430::as_std430(..).as_bytes()','Std430::ALIGNMENT','AsStd430::std430_size_static'])
p('C03','Every padding byte is initialised to zero and encoding is deterministic',
  "In the encoded value of every supported type, and in everything a Writer emits, each byte that does not belong to a component is zero; no byte is ever uninitialised or left over from memory. "
  "Encoding the same value again, at any place in memory or in the program, gives identical bytes.",
  ['programs','inputs'],'every type built from supported fields, in both layouts, and every value',
  'No test looks at a padding byte; uninitialised padding usually happens to be zero in a small test.',
  [D,'src/util.rs','src/imp/imp_mint.rs','src/std140/primitives.rs','src/std430/primitives.rs','src/std140/writer.rs','src/std430/writer.rs'],
  [('explicit _pad fields zeroed by struct update syntax',D+' as_trait_method'),('same for matrices','src/util.rs easy_impl'),('zero padding in Writer','src/std140/writer.rs write_std140')],
  ['as_bytes()','bytes received by the Writer sink'])
p('C04','Converting to a GPU layout and back returns the identical value',
  "For every supported type and derived struct, converting a value to its std140 or std430 form and back yields the original value with every component bit-identical, including NaN payloads, signed zeros, infinities, subnormals and extreme integers. "
  "The same holds when the encoded bytes are copied through a byte buffer in between.",
  ['programs','inputs'],'every type, both layouts, every bit pattern of every component',
  'One test round-trips one value of one struct in std140; std430 and most types are never converted back.',
  [D,'src/util.rs','src/imp/imp_mint.rs','src/imp/imp_cgmath.rs','src/imp/imp_glam.rs','src/imp/imp_nalgebra.rs','src/bool.rs'],
  [('field-wise from_std140/from_std430',D+' input_struct_field_init'),('field-wise conversion of library types','src/util.rs easy_impl, minty_impl')],
  ['from_std140(as_std140(v))','from_std430(as_std430(v))'])
p('C05','Every built-in scalar, vector and matrix type has its GLSL size and layout',
  "Each supported scalar, vector, point and (column-major) matrix type reports the base alignment that GLSL assigns to the corresponding GLSL type in that layout, and its encoding holds every component at the offset GLSL assigns, in native byte order. "
  "Matrices are stored as arrays of column vectors, with the column stride of the layout, and take up columns times stride bytes; vectors and scalars take exactly their components' bytes.",
  ['inputs','configurations'],'every supported built-in type in both layouts, and every value of it',
  'Sizes are asserted for three matrices; the other types (double, integer and boolean vectors, matrices of doubles) and nearly all of std430 are not.',
  ['src/std140/primitives.rs','src/std430/primitives.rs','src/imp/imp_mint.rs','src/util.rs'],
  [('vectors! / matrices! tables','src/std140/primitives.rs, src/std430/primitives.rs')],
  ['ALIGNMENT','std140_size_static / std430_size_static','as_bytes()'])
p('C06','The same value gives the same bytes from every math library',
  "A vector, point or matrix with given mathematical components (row r, column c) encodes to the same bytes, reports the same alignment, size and GLSL type name, and converts back to the same components, whether it is a mint, cgmath, glam or nalgebra value. "
  "This holds in std140 and in std430, on its own and as a field of a derived struct.",
  ['inputs','configurations'],'every supported type of every supported math library, and every value',
  'No test uses cgmath, glam or nalgebra types at all.',
  ['src/imp/imp_mint.rs','src/imp/imp_cgmath.rs','src/imp/imp_glam.rs','src/imp/imp_nalgebra.rs','src/util.rs'],
  [('easy_impl / minty_impl','src/util.rs')],['as_bytes()','from_std140 / from_std430','Glsl::NAME'])
p('C07','Booleans are GLSL booleans',
  "Every bool, alone or in a vector, point or struct, is stored as a 32-bit word that is 1 for true and 0 for false. "
  "When read back, a stored word means false if it is zero and true for every other of the 2^32 - 1 values.",
  ['inputs'],'every boolean value and every 32-bit word a shader can have stored, in every type that contains booleans, both layouts',
  'The only test with booleans checks offsets and never a stored or decoded value.',
  ['src/bool.rs','src/std140/primitives.rs','src/std430/primitives.rs'],
  [('Bool conversions','src/bool.rs')],['as_bytes()','from_std140 / from_std430','bool::from(Bool)'])
p('C08','A Writer places each value at the next aligned offset, gaps zeroed',
  "For every sequence of writes to a std140 or std430 Writer, also while other Writers are in use, each value's bytes start at the smallest offset that is at or after the end of everything written before and a multiple of the value's alignment, and the bytes in between are zero. "
  "The call returns that offset, and len() always equals the number of bytes the underlying sink has received; bytes already written never change.",
  ['histories','inputs'],'every sequence of write calls, over values of every writable type, starting anywhere',
  'Doc examples write one length and one list and check no byte; the DynamicUniform test does two writes.',
  ['src/std140/writer.rs','src/std430/writer.rs','src/internal.rs','src/std140/traits.rs','src/std430/traits.rs'],
  [('Writer::write_std140 / write_std430','src/std140/writer.rs, src/std430/writer.rs')],['Writer::write return value','Writer::len','bytes in the sink'],
  [dict(name='offset',meaning='bytes written so far',where='src/std140/writer.rs Writer')])
p('C09','All ways of writing the same values produce the same output',
  "Writing a slice, writing an iterator, writing the values one by one, writing their already converted forms, or (std140) using the deprecated slice call all produce the same bytes and the same final length at every starting offset, each value exactly once and in order. "
  "Each of these calls returns the offset of the first value's first byte, or the current length if there is no value; types with a hand-written WriteStd140/WriteStd430 implementation behave the same inside slices and iterators.",
  ['histories','inputs'],'every element type, every number of elements including none, every starting offset, both layouts',
  'A slice bug of exactly this kind shipped once (first element written twice) because tests write slices only in doc examples without checking the output.',
  ['src/std140/traits.rs','src/std430/traits.rs','src/std140/writer.rs','src/std430/writer.rs'],
  [('WriteStd140 for [T]','src/std140/traits.rs'),('WriteStd430 for [T]','src/std430/traits.rs'),('write_iter, write_slice','src/std140/writer.rs, src/std430/writer.rs')],
  ['return values','Writer::len','bytes in the sink'])
p('C10','A Sizer predicts exactly what a Writer does',
  "For every sequence of types, the offset that each Sizer::add returns is the offset at which a Writer of the same layout places a value of that type after the same earlier types, and Sizer::len is the length that Writer has then reached. "
  "This holds for sequences of any total size, including beyond 4 GiB.",
  ['histories','inputs'],'every sequence of types in both layouts, including huge ones',
  'Two doc examples add two types each.',
  ['src/std140/sizer.rs','src/std430/sizer.rs','src/std140/writer.rs','src/std430/writer.rs','src/internal.rs'],
  [('Sizer::add','src/std140/sizer.rs, src/std430/sizer.rs')],['Sizer::add return value','Sizer::len'])
p('C11','Size queries equal the bytes actually written',
  "For every type, the static size query and the size query on a value equal the length of its encoded bytes and the number of bytes a Writer emits for it at an aligned position. "
  "For slices (empty, short or long) and for types that implement WriteStd140/WriteStd430 by hand, the size query on the value equals the number of bytes a fresh Writer emits for it.",
  ['inputs','programs'],'every type and value, every slice length, both layouts',
  'One test compares two size queries with each other for f32.',
  ['src/std140/traits.rs','src/std430/traits.rs'],
  [('std140_size / std140_size_static','src/std140/traits.rs'),('std430_size / std430_size_static','src/std430/traits.rs')],
  ['std140_size','std140_size_static','std430_size','std430_size_static'])
p('C12','A Writer neither loses, repeats nor hides anything when its sink misbehaves',
  "When the sink accepts only part of a write or reports an interruption, the output is the same as for an ideal sink. "
  "When the sink fails or is full, at any byte, in padding or in data, the call returns that error (never success, never a panic), everything the sink received is a prefix of the fault-free output, and len() never exceeds the number of bytes received.",
  ['fault_sequences','histories','inputs'],'every sequence of writes and every sequence of sink results (short counts, interruptions, errors, zero-length results) at every byte position',
  'No test uses a sink that is short or fails.',
  ['src/std140/writer.rs','src/std430/writer.rs','src/std140/traits.rs','src/std430/traits.rs'],
  [('write_all for padding and data, ? on every call','src/std140/writer.rs, src/std430/writer.rs')],['returned io::Error','sink contents','Writer::len'])
p('C13','DynamicUniform changes alignment to at least 256 and nothing else',
  "Wrapping a value in DynamicUniform gives exactly the bytes and size of the value itself and an alignment that is the larger of 256 and the value's own; it converts back to the same value. "
  "A Writer or Sizer therefore places every such value at a multiple of 256 right after what was there before, and as a field of a derived std140 struct it sits at a multiple of its alignment.",
  ['histories','inputs','programs'],'every wrapped type and value, every position in a sequence of writes, every struct with such a field',
  'The tests write two wrapped floats.',
  ['src/std140/dynamic_uniform.rs','src/internal.rs'],
  [('ALIGNMENT = max(256, T::ALIGNMENT)','src/std140/dynamic_uniform.rs')],['ALIGNMENT','as_bytes()','Writer / Sizer offsets'])
p('C14','The generated GLSL struct describes exactly the bytes that are uploaded',
  "If a struct derives GlslStruct and a layout, then a GLSL compiler that is given the generated definitions and lays them out under that layout finds each member, by its generated name and type, at the place where the encoded bytes hold that field. "
  "Names, types and order of members agree between the generated GLSL and the encoded data at every nesting level.",
  ['programs','inputs'],'every struct that derives both, nested structs included',
  'One snapshot of a two-field definition; GPU tests copy whole members in and out with the same layout and only for eight structs.',
  ['crevice-derive/src/glsl.rs','src/glsl.rs',D,'src/std140/primitives.rs','src/std430/primitives.rs'],
  [('FIELDS emitted in declaration order','crevice-derive/src/glsl.rs'),('glsl_definition','src/glsl.rs')],['GlslStruct::glsl_definition','Glsl::NAME','as_bytes()'])
p('C15','Generated GLSL definitions are well-formed and faithful',
  "For every struct with at least one field (GLSL has no empty structs) that derives GlslStruct, the generated definition is a syntactically valid GLSL struct named like the Rust struct, whose members are exactly the Rust fields, in order, with the same names and with the GLSL type that corresponds to each field's Rust type (a nested struct by its own name). "
  "The list of fields exposed on the trait says the same, and Rust raw identifiers appear without their r# prefix.",
  ['programs'],'every struct over the supported field types, with any identifiers valid in both languages',
  'One snapshot with two fields.',
  ['crevice-derive/src/glsl.rs','src/glsl.rs','src/util.rs','src/std140/primitives.rs','src/imp/imp_mint.rs'],
  [('derive(GlslStruct)','crevice-derive/src/glsl.rs'),('Glsl::NAME of every type','src/glsl.rs, src/std140/primitives.rs, src/util.rs')],
  ['GlslStruct::glsl_definition','GlslStruct::FIELDS','Glsl::NAME'])
p('C16','Any struct with named supported fields can derive, anywhere, without warnings',
  "A non-generic struct with named fields that all support a layout can derive that layout (and GlslStruct, if all fields have GLSL names), whatever its field and struct names, number of fields, visibility, attributes (other than repr(packed)), surrounding scope, imports and items, and Rust edition, and also when produced by a macro; only the names that the derive itself generates in that scope (Std140X and Std430X for a struct X, and names starting with _X__Std140 or _X__Std430) are taken. "
  "The derived code causes no compiler warning, no missing-documentation warning and needs no trait import beyond naming the derive.",
  ['programs'],'every such struct definition in every such context',
  'A test suite contains a fixed set of definitions, all written in one conventional style.',
  [D,'crevice-derive/src/glsl.rs','crevice-derive/src/lib.rs','src/std140/dynamic_uniform.rs'],
  [('fully qualified paths and generated names',D)],['rustc accepts the program under deny(warnings, missing_docs)'])
p('C17','What has no defined layout is rejected at compile time',
  "Deriving a layout or GlslStruct for a tuple struct, unit struct, enum or union, or for a struct with a field whose type has no equivalent in that layout (8-, 16- or 64-bit integers, usize, char, strings, references, tuples, Option, row-major matrices, structs that do not derive that same layout, ...), does not compile. "
  "It never yields a type whose bytes would be laid out silently wrong.",
  ['programs'],'every unsupported item shape, and every unsupported field type at any position in an otherwise supported struct',
  'There are no compile-fail tests.',
  [D,'crevice-derive/src/glsl.rs','src/std140/traits.rs','src/std430/traits.rs','src/imp/imp_mint.rs'],
  [('match on Data/Fields',D+', crevice-derive/src/glsl.rs'),('trait bounds of the emitted code',D)],['rustc rejects the program'])
p('C18','Results do not depend on which crate features are enabled',
  "With every combination of the std, cgmath, glam and nalgebra features (no_std included), the crate builds, the layout derives and conversions are available to no_std code, and every type encodes to the same bytes with the same size and alignment, converts back to the same value, and has the same GLSL name. "
  "The types of a math library are supported whenever its feature is on, whichever others are.",
  ['configurations','programs','inputs'],'all 16 combinations of the four features, every type and value',
  'The no_std configuration is only ever type-checked, and tests run with one feature set.',
  ['Cargo.toml','src/lib.rs','src/imp.rs','src/std140.rs','src/std430.rs','src/std140/traits.rs','src/std430/traits.rs'],
  [('cfg(feature = ...) gates','src/lib.rs, src/imp.rs, src/std140.rs, src/std430.rs')],['cargo build per feature set','as_bytes()'])
p('C19','A shader sees the values that the program uploaded',
  "When a struct's std140 bytes are bound as a uniform or storage block, or its std430 bytes as a storage block, declared with the generated GLSL definition, a shader that reads each member component by component sees the values of the Rust fields. "
  "The same holds for a header followed by a runtime-sized array of structs produced by a Writer.",
  ['programs','inputs'],'every struct (of types the shader toolchain supports), every value, every array length',
  'The existing GPU tests copy whole members between two buffers of the same layout, which cannot notice a field read from the wrong place, and cover eight structs.',
  [D,'crevice-derive/src/glsl.rs','src/std140/primitives.rs','src/std430/primitives.rs','src/std140/writer.rs','src/std430/writer.rs'],
  [('whole pipeline','derive, glsl, primitives, writer')],['values a compute shader reads from the buffer'])
p('C20','A written slice is a GLSL runtime-sized array',
  "Writing a slice of values after any header, as the documentation does for arrays at the end of a buffer block, puts element i at the offset a GLSL shader computes for element i of a runtime-sized array member of that element type in the same layout. "
  "In particular the distance between consecutive elements is the GLSL array stride and the first element is at the array's base alignment.",
  ['histories','inputs','programs'],'every element type with a GLSL equivalent, every length, every preceding header, both layouts',
  'The documentation example is only run, its output is not inspected.',
  ['src/std140/traits.rs','src/std430/traits.rs','src/std140/writer.rs','src/std430/writer.rs',D],
  [('write_std140 for [T]','src/std140/traits.rs'),('struct size rounded up to alignment',D)],['bytes in the sink'])
p('C21','Reading back arbitrary buffer contents is total and canonical',
  "Any byte buffer of the right size, whatever it contains in padding, booleans or components, can be reinterpreted as the std140/std430 form of a type and converted to the Rust type without panicking, and yields exactly the components stored at the GLSL offsets, independent of padding contents. "
  "Encoding the result again reproduces every component (booleans normalised to 0 and 1) with all padding zero.",
  ['inputs','programs'],'every byte string of the right length, every type, both layouts',
  'No test decodes bytes that crevice did not encode itself.',
  [D,'src/util.rs','src/bool.rs','src/std140/traits.rs','src/std430/traits.rs'],
  [('Pod output types without implicit padding',D),('from_std140 / from_std430',D+', src/util.rs')],['bytemuck reinterpretation of a buffer followed by from_std140 / from_std430'])
p('C22','Layout and results are the same on every target and at every optimisation level',
  "On 32-bit and 64-bit, little- and big-endian targets, with or without optimisation and debug assertions, the crate builds and every type has the same size, alignment, component offsets and GLSL text; components (booleans included) are in the target's own byte order, and values convert back identically. "
  "Writers and Sizers return the same offsets and lengths everywhere.",
  ['configurations','programs','inputs'],'every Rust target with 32- or 64-bit pointers and 32- and 64-bit primitives of any alignment and byte order, debug and release builds; every type and value',
  'Tests only ever run on the developer\'s machine, in debug builds.',
  ['src/bool.rs','src/internal.rs','src/util.rs','src/std140/primitives.rs','src/std430/primitives.rs','src/std140/writer.rs','src/std430/writer.rs','src/std140/sizer.rs','src/std430/sizer.rs',D],
  [('explicit ALIGNMENT constants instead of Rust alignments','src/std140/primitives.rs, src/std430/primitives.rs'),('repr(C) types without implicit padding',D)],['as_bytes(), ALIGNMENT and size queries of programs compiled for the target'])
p('C23','The debug-methods feature reports the real layout and changes nothing else',
  "With the debug-methods feature of crevice-derive turned on, in programs that have std, every definition that is supported without it is still supported, in any surroundings, and has the same bytes, sizes, alignments and GLSL text. "
  "The debug_metrics function of a generated struct then reports the size and alignment of the struct's layout and lists every field of the definition once, in order, with its name, the offset at which its bytes start and the size of its converted form.",
  ['programs','configurations'],'every supported struct definition in any surroundings, in both layouts',
  'No test turns this feature on.',
  [D,'crevice-derive/Cargo.toml'],
  [('debug methods',D+' debug_methods')],['debug_metrics() of the generated struct (AsStd140::Output, AsStd430::Output)','rustc accepting a definition'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
