#!/usr/bin/env python3
"""Writes MANIFEST.json; claimed properties are listed here."""
import json
CLAIMED = ["C%02d" % i for i in range(1, 22)]
NA = {}
NOTE = ("Bounded: holds for all real values of the symbolic inputs of the listed job families (shapes and bounds in evidence "
        "and DESIGN.md), in real arithmetic with exact square roots; floating-point rounding, overflow and sizes beyond the "
        "bounds are outside. Trusts the term-graph scalar, the normal-form simplifier and z3; every explored path with a model is "
        "also run natively in f64 and compared.")
checks = [dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
               technique="symbolic execution of the compiled generic Rust code over a symbolic scalar, SMT (z3 NRA) verdict per path and claim, native replay",
               level="model_checking", level_note=NOTE) for p in CLAIMED]
allp = [json.loads(l)["id"] for l in open("properties.jsonl")]
na = [dict(property=p, reason=NA.get(p, "check under construction")) for p in allp if p not in CLAIMED]
m = dict(version=1, setup_cmd="cd symx && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=$PWD/target cargo build --release --offline", checks=checks, not_applicable=na,
         notes="No hooks: the harness crate uses the public API only.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
