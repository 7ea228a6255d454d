#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks (see DESIGN.md)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = "documents drawn at random, expectation recorded by the generator, parsed values read through every public accessor and compared by an online monitor"
CONTENT_NOTE = "Held on every document drawn (1 200 quick, up to 40 000 thorough); trusts the generator's independent reading of the format tables, cross-checked against the repository's sample files. Says nothing about shapes the generator cannot draw."
T = {
 "C01": ("hostile workloads in worker processes; panic hook, signal and stack-overflow monitor on 2 MiB stacks, unoptimised build with overflow and bounds checks", "exploration", "Catalogue of cyclic, shared and deeply nested object graphs at 22 sizes, damaged values, tokens and bytes, notebook trees; held on the inputs run."),
 "C13": ("differential monitor: one object graph, several encodings, equal dumps", "exploration", CONTENT_NOTE),
 "C14": (GEN + "; the same content spread over revision chains with stale variants", "exploration", CONTENT_NOTE),
 "C15": (GEN + "; reference-rich objects with ambiguous compact ids", "exploration", CONTENT_NOTE),
}
for i in (16,17,18,19,20,21,22,23,24,25,26,27,29):
    T["C%02d" % i] = (GEN, "exploration", CONTENT_NOTE)
T.update({
 "C02": ("processor-time watchdog (SIGPROF) around every parse of a hostile corpus and of scaling families; count of opened files for notebook trees", "exploration", "A parse is given a generous polynomial allowance in its input's size; exceeding it or being killed by the watchdog is the violation. Known finding KF1 is exercised."),
 "C03": ("counting allocator: peak heap of every parse against a linear bound in the input's size", "exploration", "Bound calibrated with headroom on the unchanged tree; hostile counts and lengths, scaling families. Known finding KF2 is exercised."),
 "C04": ("AddressSanitizer workers (thorough: also MemorySanitizer with an instrumented standard library) over hostile and generated inputs, with the compiler's UB checks on; Miri interprets small inputs", "exploration", "No sanitizer or Miri report on the inputs run; the library has no unsafe code of its own, so this watches its dependencies and any unsafe code that appears."),
 "C05": ("repetition, thread and process differential monitor, every other worker under ThreadSanitizer (instrumented standard library); Send and Sync of the public types observed by compiled probes", "exploration", "Same input parsed repeatedly, after other inputs, on many threads sharing one Parser and in processes with other environments; all results and messages equal."),
 "C06": ("truncation fault enumeration: every prefix of generated files, sampled prefixes of large ones, from memory and disk", "fault_enumeration", "All prefixes of the small documents drawn, both entry points."),
 "C07": ("structural fault enumeration over recorded wire tokens of generated files", "fault_enumeration", "Every token of the drawn documents is damaged in each way its kind makes invalid; the parser must answer with an error."),
 "C08": ("interposed C library calls deliver short, interrupted and failing reads; dumps from disk and memory compared", "exploration", "Fault plans drawn per file, file sizes around buffer multiples."),
 "C09": ("kind-confusion workload with error-text monitor", "exploration", "Every pairing of file kind and entry point over generated and sample files."),
 "C10": ("interposed open calls: the resolved target of every opened descriptor is checked against the notebook's directory", "exploration", "Hostile names and symbolic links in generated notebook trees, at the root and in section groups."),
 "C11": ("interposed mutating calls, descriptor accounting and file-tree snapshots around every parse; system-call trace with strace in the thorough tier", "exploration", "No mutation and no descriptor left over in any parse, including failing ones."),
 "C12": ("generated notebook directory trees with the generator's expectation compared entry by entry", "exploration", "Trees with groups, missing, duplicate and special names, one injected fault in some."),
 "C28": ("exhaustive enumeration of encoded values through the parser against independent tables", "exploration", "Exhaustive for 8 bit fields and small enumerations, boundary and sampled values for 32 bit fields."),
 "C30": ("the built command-line tool is run and its output, diagnostics and status compared with the library's result", "exploration", "Well-formed, hostile and missing files, other working directories and names."),
 "C31": ("differential monitor between a build with and one without the backtrace feature", "exploration", "Values, error texts and source chains of the same inputs compared; the presence and status of every error's backtrace observed."),
 "C32": ("fault enumeration over mandatory and typed data of generated documents", "fault_enumeration", "Each mandatory property removed, each known property retyped, each needed object removed or replaced by one of another type."),
 "C33": ("counting allocator and thread census around repeated parses", "exploration", "Heap in use compared before a call and after its result is dropped, for parsed, rejected, damaged and hostile inputs, files and notebooks; threads left running counted."),
})
import subprocess, sys
claimed = [l.strip() for l in open(os.path.join(V, "tools", "claimed.txt")) if l.strip()]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "bash check.sh setup",
 "checks": [],
 "not_applicable": [],
 "notes": "No hooks in /repo: all observation happens at the public interface, in the allocator, in interposed C library calls and in sanitizer builds. See DESIGN.md and KNOWN_FINDINGS.txt.",
}
for p in props:
    i = p["id"]
    if i in claimed:
        t, l, n = T[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough", "technique": "runtime monitoring: " + t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check registered yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
