#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
AI = "abstract interpretation of the SSA form (linear facts, bit-exact words, loop summaries) against per-operation contracts"
tech = {
 "C15": "lock-held dataflow inside the abstract interpretation of every operation (lockset over all paths)",
 "C16": "lock typestate inside the abstract interpretation of every operation (acquire/release on returns and panics)",
 "C17": "critical-section typestate inside the abstract interpretation (one uninterrupted hold per operation)",
 "C19": "effect and escape analysis inside the abstract interpretation (global state, caller memory, retained references)",
 "C20": "dataflow over SSA: every unsafe.Pointer conversion traced to its origin, size/alignment typing rule",
 "C21": "query over the type-checked API: shipped vs promised matrix vs templates' generated source, both directions",
 "C22": "abstract interpretation of the source the project's generator writes from the templates, against the v3 contracts",
 "C23": "effect whitelist over the generator's reachable calls, symbolic path evaluation and must-pass analysis of each output write",
 "C24": "abstract interpretation: values raised by every panic of every operation; initialisers, reassignment and rendering of error values from SSA",
 "C25": "loop ranking and recursion analysis inside the abstract interpretation of every operation",
 "C28": "interprocedural path analysis over SSA with error nilness: every file operation of the generator is made to fail and each path followed to the end of that file's round",
 "C29": "interprocedural path analysis over SSA with symbolic name conditions: every path of one round of the template loop must take the file up; open/close typestate of the files of one round",
 "C30": "effect analysis inside the abstract interpretation of every positional operation (stores to fields; every storage cell outside the window shown never stored to)",
 "C31": "backward program slice over SSA (data and control dependence through calls, closures and objects) of the generated text, with checks for state carried between rounds",
 "C33": "backward value-flow analysis over SSA from every stored text to the read it comes from (copies, replacements and piecewise copying loops only), and automaton analysis of the magic comments' regular expression",
 "C34": "abstract interpretation of the SSA form built for GOARCH=386 (32-bit int: truncating conversions, 2^31-1 length limit) against the same per-operation contracts",
 "C26": "allocation-site analysis over SSA success paths, joined with the compiler's escape analysis",
}
AIN = "Holds for every receiver and argument value the case table describes (all 64-bit offsets and counts, all contents, all slice lengths): every path of the SSA form is interpreted and every outcome judged; anything the analysis cannot establish is reported as a violation. Trusts go/packages and go/ssa, the interpreter and the contract tables in /verif/checker; assumes a non-nil consistent receiver, a 64-bit target and slices of at most 2^47 bytes."
note = {
 "C08": AIN + " The bit count n is enumerated 0..64 and the start bit mod 8 0..7, everything else is symbolic.",
 "C05": AIN + " Bit counts are enumerated 0..64.",
 "C13": AIN + " The number of slices is enumerated: 0..4 (quick) or 0..7 (thorough), 12, 33, and counts around every constant, array length and 8-bit counter the constructor uses; up to 16 slices their lengths, contents and nil-ness are arbitrary.",
 "C15": AIN + " Listed known findings: the unlocked read accessors of v1 and v2. Locks are judged for the buffer's own embedded mutex; synchronisation of caller-owned slices is the caller's.",
 "C17": AIN + " Atomicity follows from each operation being one critical section; the read accessors and After are outside the claim.",
 "C20": "Structural: decides that no construct in the library can view or fabricate memory beyond one element; bounds of ordinary indexing are enforced by the language. Trusts go/ssa.",
 "C21": "Structural: exact signatures and one-to-one correspondence; says nothing about bodies (C22 does). The generator is run as a build step on a scratch copy, unprivileged.",
 "C22": AIN + " The generator is run as a build step (as v3/Makefile does) on a scratch copy of the templates; the deciding step analyses the source it wrote.",
 "C23": "Structural: call whitelist, symbolic output path, open flags, data identity and must-pass on error-free paths. Does not decide what text is generated (C22), nor partial writes reported as errors.",
 "C30": AIN + " Bit counts are enumerated 0..64. Race freedom follows from the sets of locations stored; out-of-range arguments of MiniBuffer are covered for the fields only.",
 "C24": AIN + " Rendering of %s and %v by fmt.Sprintf is modelled.",
 "C28": "Every path is followed over an abstraction of error and condition values; loops inside a round are followed until the abstract state repeats. Trusts that a failed operation returns a non-nil error other than io.EOF and that operations on the result of a failed open fail too.",
 "C29": "Every path is followed over an abstraction of error and condition values, name conditions evaluated for the name \"_\"+S+\".go\" with S arbitrary; a condition that cannot be decided is taken both ways. Covers names collected in a map or list of strings.",
 "C31": "Whole-program slice of the generator, flow-insensitive over memory (objects in one unification class share their mutations). Trusts that outside libraries (fmt, strings, regexp, jennifer) keep no state between calls beyond the objects they are given; text kept for reuse under a sufficient key would be reported too.",
 "C33": "Holds for every template text: the flow from read to stored text contains only copies and the replacement of matches, so no byte outside a match can differ. Trusts regexp, bytes, strings and io to behave as documented. Ways of putting a text together other than by replacing matches or copying the pieces between them are refused. What a comment is replaced by is C22's matter.",
 "C34": AIN.replace("a 64-bit target and slices of at most 2^47 bytes", "a target with 32-bit int and slices of at most 2^31-1 bytes").replace("all 64-bit offsets and counts", "byte offsets and counts that fit 32 bits, bit positions of 35 bits") + " Bit counts are enumerated 0..64, constructor slice counts as for C13.",
 "C26": "Structural and conservative: every possibly allocating construct on a path to a normal return must be shown harmless; relies on the installed compiler's escape analysis (amd64) for variables and literals.",
}
level = {"C20": "other", "C21": "other", "C23": "other", "C26": "other", "C28": "other", "C29": "other", "C31": "other", "C33": "other"}
checks = []
for i in [x for x in range(1, 35) if x != 27]:
    c = "C%02d" % i
    checks.append({"property": c, "quick_cmd": f"sh check.sh -property {c} -tier quick", "thorough_cmd": f"sh check.sh -property {c} -tier thorough",
        "evidence_file": f"evidence/{c}.json", "technique": tech.get(c, AI), "level": level.get(c, "proof"), "level_note": note.get(c, AIN)})
m = {"version": 1, "setup_cmd": "sh check.sh -build", "checks": checks,
 "not_applicable": [{"property": "C27", "reason": "A statement about average running time relative to bytes.Buffer: it quantifies over timing on a machine, which nothing in the source bounds, so no static argument decides it."}],
 "notes": "All checks analyse /repo's current source; no hooks in /repo. Findings: known_findings.txt. Design: DESIGN.md."}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
