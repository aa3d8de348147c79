#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = ("property-based testing against a bit-serial reference model", "randomised search over operand values x operand type grid (boundary widths 1..2049, both signs, both state kinds) with an independent bit-serial model as oracle; finds counterexamples, proves nothing; trusts lib/model.cc and g++")
N = {}
for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C11 C29 C30".split():
    N[p] = MODEL
N["C10"] = ("metamorphic property-based testing: concretisations of unknown bits", "randomised search; each four-state case is compared with known-only runs of the same code on concretised operands; finds counterexamples, proves nothing")
N["C24"] = ("differential property-based testing: native against multiword representation", "randomised search; the same values run through the <=64-bit and the >64-bit code, related bit by bit; finds counterexamples, proves nothing")
N["C25"] = ("differential property-based testing: two-state against four-state operands", "randomised search; the same known values run as bit, logic and mixed operands; finds counterexamples, proves nothing")
N["C27"] = ("metamorphic property-based testing: repetition, aliasing, copies", "randomised search; operands, copies and repeated or aliased evaluations are compared bit by bit; finds counterexamples, proves nothing")
MODEL2 = "randomised search over generated types, bounds and operation histories against an independent model; finds counterexamples, proves nothing; trusts the model and g++"
for p, t in {"C12": "stateful property-based testing: bit read/write histories against a map model", "C13": "property-based testing against a string model of selection",
             "C14": "stateful property-based testing: write histories against a bit-string model", "C15": "property-based testing: concat/unpack round trip and string model",
             "C16": "stateful property-based testing: histories against a list of elements", "C17": "stateful property-based testing: histories against a map of elements",
             "C18": "stateful property-based testing: struct/union field writes against one bit-string model", "C19": "generator-based fuzzing of the literal parser against a model parser",
             "C20": "property-based testing of formatting against a model printer", "C21": "property-based testing of decimal formatting against big-integer arithmetic",
             "C22": "property-based testing: print/parse round trips and printing of computed results", "C23": "property-based testing against C++ integer arithmetic mod 2^64"}.items():
    N[p] = (t, MODEL2)
N["C26"] = ("stateful model-based property-based testing: random programs over a register file against an interpreter", MODEL2)
N["C31"] = ("property-based testing of generated thread schedules: parallel against sequential results, under ThreadSanitizer", "randomised search over thread programs and operand values; happens-before race detection plus comparison with the results alone; finds counterexamples, proves nothing; schedules within a case are the operating system's")
N["C28"] = ("fuzzing under AddressSanitizer, UBSan and memcheck: the other properties' generators, byte-level generation, coverage-guided libFuzzer", "randomised and coverage-guided search with sanitizers and termination limits as the oracle; finds counterexamples, proves nothing")
exec(open(os.path.join(V, "tools", "manifest_extra.py")).read()) if os.path.exists(os.path.join(V, "tools", "manifest_extra.py")) else None
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": [], "not_applicable": [],
     "notes": "no hooks in /repo; all harness code lives in /verif and compiles /repo's headers and src/util.cc from the working tree"}
for p in props:
    if p["id"] in N:
        t, n = N[p["id"]]
        m["checks"].append({"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"], "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
