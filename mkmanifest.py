#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below; run after adding a check."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": ("differential monitoring of lookups against a reference map", "generated catalogs through every door (built, PO, MO, bound); reference lookup trusted"),
 "C02": ("differential monitoring of plural evaluation against an independent C evaluator", "generated expressions, spellings and counts; the evaluator is trusted; 9 known findings on malformed expressions the lexer accepts"),
 "C03": ("differential monitoring of plural lookups against a reference rule evaluator", "generated catalogs, rules and counts; well-known rules exhaustively to 1100"),
 "C04": ("differential monitoring of the PO reader against the printer's own messages and msgfmt", "random layouts of random messages; GNU msgfmt as a second oracle where present"),
 "C05": ("round-trip monitor over saved PO with an independent strict PO parser", "generated catalogs; idempotence, acceptance and lookups observed"),
 "C06": ("differential monitoring of the MO reader over randomly laid out images", "independent MO writer trusted; truncations and bad tables at every offset of small images"),
 "C07": ("structural monitor of saved MO images with an independent MO reader", "bounds, NULs, order and binary search checked for every message; msgunfmt as a second oracle where present"),
 "C08": ("round-trip monitor over saved templates with an independent PO parser", "generated catalogs and malformed templates"),
 "C09": ("mutational stress with crash, hang and memory monitors", "mutated and crafted catalogs; allocation measured per read; per-case watchdog"),
 "C10": ("differential monitoring of formatting against fmt.Sprintf", "generated formats and arguments; argument slices fingerprinted"),
 "C11": ("model-based monitoring of header use over random histories", "every order of adding, replacing and looking up"),
 "C12": ("model-based monitoring of random state histories over handles", "all operation pairs plus long random histories"),
 "C13": ("fault injection at every file-system operation with a reference walk and a close ledger", "each operation of a clean run failed once and for good; random multi-fault runs"),
 "C14": ("exhaustive and random monitoring of tag normalisation", "all registered languages and pairs; spellings; child processes per environment"),
 "C15": ("differential monitoring of negotiation against an independent header parser and the matcher", "x/text matcher trusted for inexact matches"),
 "C16": ("race detector and sequential-answer comparison under concurrent stress", "many goroutines, first-use races in fresh processes; only interleavings that occurred"),
 "C17": ("fault injection at every byte of every save with content fingerprints", "writer failing, short, or lying at each offset"),
 "C18": ("differential monitoring of all API forms on twin states", "every form of every entry point per state"),
 "C19": ("monitoring of the real command on generated templates with recorded calls", "grammar covers every node kind; recorded calls are the oracle"),
 "C20": ("monitoring of the real command over generated keyword declarations", "all small positions exhaustively; random large ones; invalid declarations by class"),
 "C21": ("fault injection and monitoring of the real command's exit, streams and files", "bad inputs, unwritable outputs, damaged templates"),
 "C22": ("model-based monitoring of reported languages over random histories", "model of catalogs per domain and locale"),
 "C23": ("model-based monitoring of registration, dispatch and files with recording translators", "marked catalogs and recording translators of any kind; histories of registration, removal and reloading"),
 "C24": ("ordering monitor over listings and saves of one catalog in many insertion orders", "ties at several places and numbers of ten digits are not judged"),
 "C25": ("memory-ownership monitoring: fenced, read-only and overwritten buffers", "read-only pages turn a write into a fault; an added entry stays the catalog's own"),
 "C26": ("model-based monitoring of random conversion and edit chains", "model of messages and header; comments end at MO"),
 "C27": ("end-to-end monitoring: extracted, translated and executed templates against an argument-driven oracle", "generated executable templates; text/template and html/template"),
 "C28": ("monitoring of the real command's messages, results and files per language and catalog", "the command's known messages; one naming variable or equal ones"),
 "C30": ("order-independence monitor: fresh processes answer the same questions in different orders", "questions about look-alikes; error texts compared but for the plural parser's"),
 "C31": ("process-effect monitor: streams, files and settings of a process around the library's work", "access times not judged"),
 "C32": ("work meters (allocated bytes, thread CPU time) of every operation at two sizes", "least of repeated measurements; quadratic or size-dependent work only"),
 "C33": ("fault and damage injection with reference diagnoses compared with the errors reported", "wording free; numbers, names, quoted lines and wrapped causes judged"),
 "C29": ("resource ledger (heap, goroutines, descriptors) over long streams of new inputs", "growth judged per round after warm-up; bounded caches allowed"),
}
FAULT = {"C13", "C17"}
checks = [{"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough", "technique": "runtime monitoring: " + t,
           "level": "fault_enumeration" if p in FAULT else "exploration", "level_note": n} for p, (t, n) in sorted(T.items())]
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks drive /repo's exported API and its command from outside", "source_commits": []},
     "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
