#!/usr/bin/env python3
"""Writes MANIFEST.json. Run after changing the list of checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = "proptest-generated struct definitions compiled against /repo; "
T = {
 "C01": (GEN + "random values; reference std140 layout model as oracle; shrinking of definitions and values",
         "Random search: some 600 generated struct definitions per quick run (among them all ordered pairs of adjacent field types, all runs of three fields of different layouts - four in the thorough run - and a struct of more than 256 fields) times random values. Trusts the layout model in harness/src/model.rs, which was written from the GLSL specification, and each math library's own accessors."),
 "C02": (GEN + "random values; reference std430 layout model as oracle; shrinking of definitions and values",
         "As C01 for std430."),
 "C03": (GEN + "random values over dirty memory, plus miri on generated programs; zero-padding invariant",
         "Random search. Padding bytes are located by the layout model, or, where a type is laid out differently, by which bytes change with the components. A generated sub-batch runs under miri, which reports any read of uninitialised memory."),
 "C04": (GEN + "round-trip property over random and special bit patterns",
         "Random search over values; every built-in type and about 160 generated structs per quick run."),
 "C05": ("every built-in type under every Rust name x generated values; reference layout table as oracle",
         "All supported type spellings are enumerated; values are random. A spelling that does not compile is a violation. Trusts harness/src/model.rs."),
 "C06": (GEN + "differential testing of every math library's types against mint",
         "Random search; components are set and read through each library's own accessors."),
 "C07": ("generated 32-bit words and boolean-carrying structs; encoding/decoding oracle",
         "All 2^32 stored words of the Bool type are swept; vectors, points and structs of booleans hold random and single-bit words."),
 "C08": ("model-based testing: generated write histories against a model Writer",
         "Random histories of up to 14 calls with all ways to write, some of which start beyond 4 GiB; the model uses each value's own bytes and alignment. Debug and optimised programs."),
 "C09": ("metamorphic testing: all ways to write the same generated values must agree",
         "Random search over value lists (up to thousands of values), types and starting positions."),
 "C10": ("differential testing of Sizer against Writer on generated type sequences; arithmetic model beyond 4 GiB",
         "Random search. Sequences beyond memory size use types that are measured but never created."),
 "C11": (GEN + "size queries compared with the bytes written",
         "Random search over types and slice lengths, mostly up to 69, some in the thousands."),
 "C12": ("generated write histories with fault injection in the sink; fault-free output and sink log as oracle",
         "For some histories every byte position of the output gets a fault; otherwise random search over fault positions and kinds."),
 "C13": (GEN + "differential testing of wrapped against bare values, model-based Writer/Sizer histories",
         "Random search."),
 "C15": (GEN + "strict parser of the generated GLSL against the definition",
         "Random search over definitions and identifiers (GLSL identifiers are ASCII)."),
 "C20": ("generated headers and slices; GLSL runtime-array offset rules as oracle",
         "Random search. Nine element types are listed as known findings; for those the recorded stride is checked instead."),
 "C21": ("generated byte buffers read back as generated types; reference decoder as oracle",
         "Random search over buffers of every built-in type and generated structs."),
 "C14": (GEN + "naga's GLSL front end lays out the generated GLSL; its member offsets, names and types are compared with crevice's bytes",
         "Random search within what naga 22 lays out correctly (see DESIGN.md); trusts naga for that domain."),
 "C16": ("generated struct definitions in generated contexts (visibility, attributes, scopes, imports, macros, editions, names), compiled under deny(warnings, missing_docs)",
         "Random search over contexts; rustc is the oracle, generated run-time assertions check the result."),
 "C23": ("generated struct definitions in generated contexts, derived with the debug-methods feature; reference layout model and rustc as oracle",
         "Random search over definitions and contexts, as C16; the report's numbers are compared with the layout model, the text around them is free."),
 "C17": ("generated unsupported definitions must be rejected by rustc while their supported siblings compile",
         "Random search over item kinds and unsupported field types. Arrays are accepted if their layout is right."),
 "C18": ("all 16 feature combinations x generated types and values; reference encodings as oracle",
         "All feature combinations are enumerated; types and values are generated. no_std combinations are compiled as no_std crates that use the derives."),
 "C19": ("generated structs and values read back by generated compute shaders on a software Vulkan device (lavapipe)",
         "Random search within what naga 22 compiles; trusts naga and lavapipe."),
 "C22": ("generated types, values and Writer/Sizer histories in programs for 32-bit and big-endian targets (interpreted by miri) and in optimised native programs; reference layout model as oracle",
         "Random search; quick covers i686, s390x and optimised x86-64, thorough also powerpc, armv7 and aarch64. Trusts miri's emulation of targets."),
}
done = [l.strip() for l in open(os.path.join(ROOT, "tools/claimed.txt")) if l.strip()]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [
  {"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
   "evidence_file": f"evidence/{p}.json", "technique": T[p][0], "level": "exploration", "level_note": T[p][1]}
  for p in sorted(done)],
 "not_applicable": [{"property": p, "reason": "check under construction"} for p in sorted(T) if p not in done],
 "notes": "No hooks: everything is observed through crevice's public API. Replays: ./check.sh replay <dir>.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
