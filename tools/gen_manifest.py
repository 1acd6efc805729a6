#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MODEL = "Random testing with an independent oracle: assurance covers the executions reported in the evidence, nothing beyond. Trusts the reference model (harness/driver/src/model.rs), rustc, and the observing side (harness/oakrt)."
C = {
 "P01": ("monitored execution of generated recognizers against a reference PEG evaluator", MODEL),
 "P02": ("differential monitoring of generated parsers and recognizers", "Oracle-free comparison of the two functions of each rule; covers the executions reported in the evidence."),
 "P03": ("monitored execution of generated parsers, values compared with a reference evaluator", MODEL),
 "P04": ("static types reported by running programs and compiler warnings, against a reference inference", MODEL),
 "P05": ("offline check of recorded action-call logs against a reference evaluator", MODEL),
 "P06": ("monitored execution against a reference evaluator and against equivalent predicates", MODEL),
 "P07": ("instrumented stream: operation budgets, panics, stack depth on random and long inputs", MODEL + " Termination is observed as staying within a budget of stream operations proportional to recursive descent."),
 "P08": ("real macro and rustc run on random grammars a reference analysis accepts", MODEL),
 "P09": ("furthest failure and expected items of monitored parses against a reference evaluator", MODEL),
 "P10": ("rendering of every position of random texts and of real parse results against a reference", MODEL),
 "P11": ("monitored execution of grammars with captures against a reference evaluator", MODEL),
 "P12": ("online check of random operation histories on the real streams against cursors", MODEL),
 "P13": ("online check of random operation histories on the real states against a small model", MODEL),
 "P14": ("exhaustive sweep of all characters through generated classes, against the class's meaning", MODEL),
 "P15": ("real macro run on ill-formed and random grammars, diagnostics against a reference analysis", MODEL),
 "P16": ("compiler warnings against a table of chains; advised rewritings run side by side", MODEL),
 "P17": ("composed grammars run beside their inlined merge and a reference evaluator", MODEL),
 "P18": ("differential monitoring of several presentations of one grammar", "Comparison between presentations of one grammar and with the reference; covers the executions reported in the evidence."),
 "P19": ("measured size of the macro's expansion over growing and random compositions", "Measures the tokens of the real expansion; covers the families and random compositions reported in the evidence."),
 "P21": ("documented grammars run beside parsers written by hand for their languages", "Random testing with an independent oracle: assurance covers the executions reported in the evidence, nothing beyond. Trusts the hand-written parsers (harness/driver/src/props/langs.rs), rustc, and the observing side (harness/oakrt)."),
 "P20": ("differential monitoring over stream types, orders, repetitions, threads and re-entrant parses", "Comparison between executions; covers the executions reported in the evidence."),
}
STUBS = set(os.environ.get("STUBS", "").split())
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
  "version": 1,
  "setup_cmd": "./check build",
  "checks": [dict(property=p, quick_cmd="./check " + p, thorough_cmd="VERIF_TIER=thorough ./check " + p, technique=C[p][0], level="exploration", level_note=C[p][1]) for p in props if p not in STUBS],
  "not_applicable": [dict(property=p, reason="check not built yet") for p in props if p in STUBS],
  "notes": "No hooks in /repo: everything is observed at its public interface (the macro's diagnostics and expansion, the generated functions, the runtime). See DESIGN.md.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
