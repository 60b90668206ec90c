#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("crash/hang/memory watchdog over isolated worker processes driving every entry point on hostile input",
   "No input tried made any entry point crash, hang, run away with memory or lose progress. Assumes that what hostile generators, mutators and million-fold repetition do not reach is not judged; five known stack overflows of JSON at a million nesting levels are listed."),
 "C02": ("acceptance monitor over generated well-formed modules and enumerated token sequences, cross-checked by an independent reference parser",
   "Every well-formed text tried was accepted. Trusts the generator and the reference parser, two independent oracles held against each other."),
 "C03": ("rejection monitor: enumerated and mutated token sequences judged by an independent reference parser and tokeniser",
   "Every ill-formed text tried was rejected. Forms the language leaves unsettled here are skipped and counted."),
 "C04": ("tree oracle: the parsed tree of each generated or enumerated module is compared with the tree it was spelled from",
   "The tree was the intended one on every module tried, including all block shapes to a size bound."),
 "C05": ("tree oracle over all operator sequences to a bound and random expressions",
   "Grouping was right for every operator sequence up to the enumerated length and for random deeper ones."),
 "C06": ("tree oracle over enumerated and random access chains, calls and object creation",
   "Structure was right for all chains up to the enumerated length and for random longer ones."),
 "C07": ("value oracle: literals compared with independently computed values (math/big, calendar arithmetic)",
   "Values were exact on all literals tried; numbers are float64, so exact means correctly rounded."),
 "C08": ("metamorphic oracle: outcomes of differently laid out spellings of one token sequence are compared",
   "Layout, comments, regions and keyword case changed nothing on all texts tried."),
 "C09": ("tree oracle over names that look like keywords, in every role, case and position",
   "Names were kept and separated from keywords in every role tried."),
 "C10": ("rule oracle: an independent legality judgement over jump statements placed in all nesting paths to a bound",
   "Acceptance agreed with the rules for every placement to the bound and for random modules."),
 "C11": ("rule oracle over declaration orders, repeats and letter cases",
   "Acceptance agreed with the declaration rules on all sequences tried."),
 "C12": ("tree oracle over declarations: names, flags, directives, parameters, defaults",
   "Declarations were recorded as written on all modules tried."),
 "C13": ("metamorphic oracle: the subtree of a part is compared in different surroundings",
   "The tree of a part was the same in every surrounding tried."),
 "C14": ("round-trip oracle: printed text is parsed again and the trees are compared, twice",
   "Print parsed back to the same module for every module and option tried, nesting depth bounded."),
 "C15": ("option oracle: token streams of all option outputs are compared; layout rules are checked line by line",
   "Options changed only white space on all modules tried; negative margins are outside."),
 "C16": ("state monitor: deep snapshots before and after each operation, repeated runs, long sessions and fresh processes compared",
   "Results never depended on repetition, history or process on all runs tried, and reads left the tree unchanged."),
 "C17": ("JSON oracle: the document is decoded into a tree by an independent reader and compared with the intended tree",
   "JSON told every module tried completely, up to what a document without node type tags can tell."),
 "C18": ("visit monitor: recorded Walk callbacks are compared with an independent traversal, edits through the callback checked",
   "Every statement was visited once, in place and in order, on all modules tried."),
 "C19": ("Go race detector plus result oracle over concurrent schedules with injected yields and delays",
   "No data race and no differing result on the schedules that ran; happens-before detection, C code by results only."),
 "C20": ("position oracle: the error's line, column and token are compared with those of the independent tokeniser and reference parser",
   "Errors named the first offending token on all rejected texts tried."),
 "C21": ("work monitor: executed basic blocks, allocated bytes, source reads and CPU time compared between sizes",
   "Work grew linearly between 40 KB and 4 MB on every content tried."),
 "C22": ("token-stream monitor: each Next call compared with an independent tokeniser (kind, literal, value, position, end)",
   "Every token agreed on all texts tried; unsettled lexical forms are skipped and counted."),
 "C23": ("address sanitizer, guard pages, allocation accounting and an independent lowering oracle",
   "No memory error, leak, side effect or wrong byte on every code point, byte pair, length and workload tried."),
 "C24": ("round-trip oracle: a printed statement is parsed again and compared, with the rest of the module watched",
   "Every printed statement tried parsed back to the same statement."),
 "C25": ("message oracle: rule, operator or name, and place in the error compared with an independent parser's list of broken rules",
   "Every broken rule tried was named in its place; with several in one module any one of them suffices."),
 "C26": ("edit monitor: trees changed through exported fields, the neutral form of the edited tree against Print, PrintStatement, JSON and Walk",
   "All edited trees tried rendered as edited, also after earlier renderings and in other objects."),
 "C27": ("aliasing monitor: every place of all live trees is compared before and after edits made through exported fields",
   "No edit tried showed anywhere else: not in the same tree, another tree, rendered text or a later parse."),
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for p in props:
    t, note = T[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": "./run.sh %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough ./run.sh %s" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": t, "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the monitors observe exported behaviour, compiler instrumentation (race detector, address sanitizer, block counters) and memory through reflection. KNOWN_FINDINGS.txt lists what was repaired and what is left."}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
