#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
GO = {f"C{i:02d}" for i in list(range(1, 15)) + [28]}
RS = {f"C{i}" for i in range(15, 23)}
GEN = {"C27", "C29"}
TS = {"C23", "C24", "C25"}
NA = {}
NA_DEFAULT = "check not built yet"
checks, na = [], []
for l in open('/verif/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if i in GO:
        checks.append({
            "property": i,
            "quick_cmd": f"bash tools/gocheck.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash tools/gocheck.sh {i}",
            "technique": "deductive verification: contracts on the real Go functions (/verif/ghost), verification conditions generated from the compiled SSA of /repo's current source, discharged by z3/cvc5",
            "level": "proof",
            "level_note": "All obligations of all contracts for every input, no bound on lengths or values (objects up to 2^47 bytes). Trusted: the VC generator govc, x/tools SSA, the solvers, the specification. A function that leaves the verifier's reach after a change is checked by a labelled bounded search instead.",
        })
    elif i in RS:
        checks.append({
            "property": i,
            "quick_cmd": f"bash tools/rscheck.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash tools/rscheck.sh {i}",
            "technique": "deductive verification: contracts on the real Rust functions (/verif/rs/ghost), verification conditions generated from rustc's monomorphic MIR of /repo's current source (with the MIR of the standard-library functions it calls), discharged by z3/cvc5",
            "level": "proof",
            "level_note": "All obligations of all contracts for every input, no bound on lengths or values (byte strings up to 2^40 bytes). Trusted: the VC generator govc and the MIR reader, rustc's MIR construction, the solvers, the specification, assumed contracts of std functions shipped without MIR (str::from_utf8, fmt::Formatter::write_str/pad, Box<dyn Error>::from; for the C API also memchr, strlen, CString::from_raw/_from_vec_unchecked, CStr::to_str). A function that leaves the verifier's reach after a change is checked by a labelled bounded search instead.",
        })
    elif i in TS:
        checks.append({
            "property": i,
            "quick_cmd": f"bash tools/tscheck.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash tools/tscheck.sh {i}",
            "technique": "deductive verification: contracts on the real TypeScript functions (/verif/ts/ghost), verification conditions generated from the TypeScript compiler's syntax tree of /repo's current source, discharged by z3/cvc5",
            "level": "proof",
            "level_note": "All obligations of all contracts for every input, no bound on lengths or values (byte strings up to 2^40 bytes). Trusted: the VC generator govc and its semantics of JavaScript and of the built-ins the code uses (typed arrays, DataView, TextEncoder/TextDecoder, BigInt), the TypeScript parser, the solvers, the specification. A function that leaves the verifier's reach after a change is checked by a labelled bounded search on node instead.",
        })
    elif i == "C26":
        checks.append({
            "property": i,
            "quick_cmd": f"bash tools/allcheck.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash tools/allcheck.sh {i}",
            "technique": "deductive verification: the contracts of all five implementations (Go v1, Go v2, Rust, C API, TypeScript) against one wire format and one table of tags, verification conditions generated from /repo's current source by three front ends, discharged by z3/cvc5; the C header's constants as constant expressions",
            "level": "proof",
            "level_note": "Agreement is by composition: every implementation meets the same specification (encode: exact bytes; decode: exact value of every well-formed encoding; kinds: exact tags). Trusted: as for C01-C25, and that the three spellings of the specification (ghost/common/spec.go, rs/ghost/spec.rs, ts/ghost/spec.ts) say the same.",
        })
    elif i in GEN:
        checks.append({
            "property": i,
            "quick_cmd": f"bash tools/gencheck.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash tools/gencheck.sh {i}",
            "technique": "deductive verification of generated code: /repo's generator runs on a schema corpus, verification conditions are generated from the compiled SSA of its output and discharged by z3/cvc5 under contracts on every generated Encode and Decode, on top of the library's contracts, which are proved in the same check",
            "level": "translation_validation",
            "level_note": "For every message type of the corpus (every supported field type in every position): all field values, lists and maps of any size (one arbitrary iteration of each loop, its frame checked), nested messages by structural induction. Schemas outside the corpus are not covered by proof. Trusted: the VC generator govc, x/tools SSA, the solvers, the item-stream reading of the library contracts.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, NA_DEFAULT)})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write("\n")
