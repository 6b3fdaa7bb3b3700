#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CHECKS: property -> (technique, what it assures and trusts)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
"P01": ("stateful model-based property testing of the reader against a bit-string model",
        "random operation histories compared with the model after every operation; trusts the model and the in-memory cursor"),
"P02": ("stateful model-based property testing of the writer against a bit-string model",
        "random operation histories compared with the model after every operation, then read back; bit order changes only between bytes"),
"P03": ("property testing of primitive decoding against a reference codec",
        "all primitive types, all ways of stating size and orders, arbitrary bit positions; a documented meaning is required, so signed big-endian least-significant-first fractions of bytes are not compared"),
"P04": ("property testing of primitive encoding against a reference codec and round trips",
        "all primitive types, all ways of stating size and orders, values around every limit; sizes in bytes are only checked for values that fit"),
"P05": ("differential property testing of generated declarations against a reference interpreter (read side)",
        "declarations, compiled with the real derive, read generated inputs; value, bits consumed and error class compared; trusts the interpreter"),
"P06": ("differential and round-trip property testing of generated declarations (write side)",
        "values written by generated declarations compared with a reference interpreter, and values read back; bit orders mixed within a byte are not compared"),
"P07": ("metamorphic property testing of the entry points on generated declarations",
        "from_bytes, from_reader, TryFrom, to_bytes, to_bits, to_slice, conversions and sequences through one reader or writer agree with one another and the reference"),
"P08": ("metamorphic property testing: truncation and extension of accepted inputs",
        "every prefix of accepted inputs, at every offset, and extensions by arbitrary bytes; trusts the reference for which declarations look at the end of input"),
"P09": ("robustness fuzzing with allocation accounting",
        "hostile inputs on generated declarations and library types: no panic, memory bounded by input length; elements of at least one bit, bounded nesting"),
"P10": ("fault-injecting property testing of streams",
        "pieces of any size and faults of every kind at every position, on read and write, of generated declarations and raw operations; faults are lasting"),
"P11": ("model-based property testing of collection limits",
        "containers x element types x limits against element-by-element decoding, and generated declarations against the reference interpreter"),
"P12": ("differential property testing of generated enums against a reference interpreter, over the identifier space",
        "generated enums x identifiers (all of them when small, boundaries otherwise) x payloads, read, written, reported and read back"),
"P13": ("differential property testing of generated declarations against a reference interpreter",
        "magics and assertions of generated declarations, on matching, nearly matching and random inputs and values"),
"P14": ("differential property testing of generated declarations against a reference interpreter",
        "paddings before and after, in bits and bytes, constant and computed, negative ones included"),
"P15": ("differential property testing of generated declarations against a reference interpreter",
        "seeks on fields and structs, constant and computed, read and write; outputs with a hole at the very end are not compared"),
"P16": ("differential property testing of generated declarations against a reference interpreter (update)",
        "update expressions over stale, fitting and overflowing values, then written and read back"),
"P17": ("metamorphic property testing: generated declarations with temporary fields against twins that keep them",
        "each declaration is generated twice, with temporary and with kept fields; both are compiled, read and written"),
"P18": ("differential property testing of generated declarations against a reference interpreter",
        "contexts through nested structs and enums, defaults, and the variables the expressions may name"),
"P19": ("property testing of static sizes against encodings and a reference computation",
        "fixed-layout generated declarations and library types x values and inputs; declarations whose fields may be absent are excluded"),
"P20": ("property testing of wrapper and library types against their contents and a reference interpreter",
        "every container form x element types x contexts against its contents decoded in order; non-zero, address and string types against their definition; generated declarations that use them"),
"P22": ("fault-injecting property testing with drop accounting",
        "element types that count themselves, decoders that fail or panic at a chosen element, on arrays and every other container; when a decoder panics elements may be left undropped, never dropped twice"),
"P23": ("differential property testing across feature selections",
        "the same generated declarations and cases in eleven separately built selections, against the default one; the declarations need no more than the selection offers"),
"P21": ("metamorphic property testing: forward-only streams against seekable ones",
        "generated declarations on NoSeek inputs and outputs in any pieces, and histories of raw wrapper operations"),
"P24": ("differential property testing of generated declarations against a reference interpreter",
        "skip, cond and default with constant and computed expressions"),
"P25": ("differential property testing of generated declarations against a reference interpreter",
        "custom readers and writers, maps of values and failing maps at generated positions"),
}
CHECKS["P26"] = ("property-based testing of the derive macros: generated declarations with injected contradictions, judged by the compiler",
        "generated declarations of every family compile, and with one of about sixty kinds of contradiction put in at a random place are refused at their own lines; also under the bytes-only feature selection and with the library renamed")
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{"property": p, "quick_cmd": f"bash run.sh {p} quick", "thorough_cmd": f"bash run.sh {p} thorough",
             "technique": CHECKS[p][0], "level": "exploration", "level_note": CHECKS[p][1]} for p in props if p in CHECKS],
 "not_applicable": [{"property": p, "reason": "the check is not built yet"} for p in props if p not in CHECKS],
 "notes": "One Rust harness crate (harness/), one binary per property; run.sh builds it against /repo and runs it. No hooks in /repo: every check uses the public interface.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
