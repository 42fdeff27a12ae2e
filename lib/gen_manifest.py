#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
FAM = {
 "lex": ("TLA+ lexer state machine (CoilLexer), exhaustively model-checked by TLC; observations of DefaultLexer and Bindings::execute validated by TLC against it",
         "Decides every observed text: all short texts over the structural characters plus tens of thousands of random, mutated and long ones, in the sanitized and in the default build. Texts not generated are covered only by the specification. Trusts the driver's recording and TLC."),
 "conv": ("TLA+ conversion and rendering specification (CoilConv), model-checked by TLC; observations of Value::get, commands and TypeSerializer validated by TLC against it",
          "Decides every observed (type, value) pair: exhaustive short texts, all boundary values of every type, and random ones. Floating-point texts are checked up to each type's guaranteed decimal digits; texts whose rounding is a tie or whose exponent is near the type's limits are not generated. Trusts the driver's printf of the received number and TLC."),
 "exec": ("TLA+ state machine of registries, invocations and results (CoilExec), model-checked by TLC; traces of real executions validated by TLC against it, including behaviours generated by TLC and replayed on the code",
          "Decides every observed step of every recorded history (registry operations, invocations, body operations, results, destructions) against the specification; histories are generated from the specification's state graph and by seeded random search. Histories not generated are covered only by the specification. Trusts the driver's recording and TLC."),
 "cont": ("TLA+ specification of the container, model-checked by TLC; behaviours covering every edge of TLC's state graph replayed on the real container, and random long histories, all traces validated by TLC",
          "Every transition of the bounded model is replayed on the code and every step's observable state validated; longer histories are sampled. Trusts the driver's recording and TLC."),
 "threads": ("TLA+ product of one CoilExec state machine per thread, every schedule of pairs of scripts explored by TLC; the schedules replayed on real threads, random schedules, free-running threads under ThreadSanitizer and hand-overs, all recordings validated by TLC",
             "Turns change between public operations, within running commands and in callbacks the library makes; interference within a single library call is decided by ThreadSanitizer's happens-before analysis of free-running threads. Schedules not generated are covered only by the specification. Trusts the driver's recording, ThreadSanitizer and TLC."),
 "text": ("TLA+ specification of texts, values and formatting (CoilText), model-checked by TLC; observations of the real API, including all inputs TLC generates, validated by TLC against it",
          "Decides every observed input: all short texts and pairs over a small alphabet, every single byte, every length up to 530 and around larger sizes, and random ones. Formats are the driver's fixed set. Trusts the driver's recording and TLC."),
}
CHECKS = {}
for p in ("C01", "C02", "C03", "C04"): CHECKS[p] = "lex"
extra = os.path.join(V, "lib", "claimed.json")
if os.path.exists(extra):
    CHECKS.update(json.load(open(extra)))
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [],
     "notes": "Technique: explicit TLA+ specifications (spec/*.tla) checked with TLC and bound to the code by trace validation and model-generated behaviours; see DESIGN.md. Known findings: known-findings.txt."}
for p in props:
    if p["id"] in CHECKS:
        t, n = FAM[CHECKS[p["id"]]]
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"], "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
