#!/usr/bin/env python3
"""Writes claims.json (what check.py needs per property) and MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KANI = "Kani 0.68 (rustc MIR semantics, CBMC 6 bit-precise machine arithmetic, SAT solver)"
VERUS = "Verus 0.2026.09.13 (its encoding of Rust, Z3), and verus/extract.py, which takes the functions from the source as its head says"
HASKANI = {"C01", "C03", "C04", "C05", "C06", "C22", "C23"}
NATIVE = "the rustc-compiled contracts crate, for the cases labelled bounded"
ERRTXT = "the text of error messages is not specified: alloc::fmt::format and u16::to_string are stubbed in the proofs (whether an error is reported is specified)"
HEAP = "allocation never fails; values are forgotten, so destructors are outside the proofs"
MAPS = "under cfg(kani) HashMap/IndexMap/BTreeMap are replaced by association-list models in src/verif_model.rs with the same documented behaviour (hashing itself is not verified)"
HOOKS = "hooks in src/code/verif_hooks.rs expose internal functions unchanged under cfg(kani)"
C = {}
def claim(id, level, technique, note, explanation, assumptions=(), **kw):
    C[id] = dict(level=level, technique=technique, level_note=note, explanation=explanation,
                 trusted_base=([VERUS] if kw.get("verus") else []) + ([KANI] if id in HASKANI else []) + [NATIVE], assumptions=list(assumptions), **kw)
NA = {}
exec(open(os.path.join(V, "tools", "claims_data.py")).read())
json.dump(C, open(os.path.join(V, "claims.json"), "w"), indent=1)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
M = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "hooks": {"guard": "cfg(kani)", "enable": "set by cargo kani itself; RUSTFLAGS='--cfg kani --cfg replay' when a counterexample of an internal function is replayed natively", "source_commits": hooks},
    "checks": [],
    "not_applicable": [],
}
for p in props:
    if p in C:
        c = C[p]
        M["checks"].append({"property": p, "quick_cmd": "python3 /verif/check.py %s quick" % p, "thorough_cmd": "python3 /verif/check.py %s thorough" % p,
                            "technique": c["technique"], "level": c["level"], "level_note": c["level_note"]})
    else:
        M["not_applicable"].append({"property": p, "reason": NA.get(p, "not built yet")})
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
