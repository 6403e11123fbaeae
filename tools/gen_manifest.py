#!/usr/bin/env python3
"""Write MANIFEST.json. Usage: gen_manifest.py (run in /verif)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model_checking"
INFO = {
 "C01": ("exploration", "exhaustive enumeration of byte strings and single/double mutations of small model-generated files on the real code, under guard-page and misaligning allocators and CPU feature levels", "bounded mutation depth; inputs outside the enumerated neighbourhoods are not explored"),
 "C02": (MC, "explicit enumeration of frame geometry x process x output colourspace on the real code against the length/metadata model", "bounded image sizes"),
 "C03": (MC, "explicit enumeration of every image size/sampling/output up to a bound, model-encoded traces replayed on the real decoder and compared with the reference reconstruction", "bounded image sizes; larger ones at MCU-boundary representatives"),
 "C04": (MC, "explicit-state enumeration of progressive scan scripts and end-of-band-run structures of the encoder model, every trace replayed on the real decoder and compared with the baseline trace", "bounded scripts and block counts"),
 "C05": (MC, "explicit enumeration of restart intervals x geometry x process x phases, replayed on the real decoder and compared with the restart-free trace", "bounded MCU counts"),
 "C06": (MC, "explicit enumeration of entropy-coder states (code length x symbol x magnitude x bit phase x stuffing x table shape), replayed on the real decoder", "bounded symbol sequences"),
 "C07": (MC, "explicit enumeration of coefficient x value x quantiser states and structured combinations, replayed on the real decoder against the exact inverse DCT", "all single-coefficient states; pairs and structured blocks beyond, not all 64-coefficient blocks"),
 "C08": (MC, "exhaustive enumeration of all 2^24 YCbCr triples for every output layout on the real code", "the colour state space is complete; positions in a row are sampled by the layout of the planes"),
 "C09": ("exploration", "exhaustive enumeration of bounded image/coefficient spaces, each executed on every implementation variant (AVX2, SSE via CPUID faulting, scalar option, feature off)", "bounded images"),
 "C10": (MC, "stateless model checking of the real code: controlled scheduler with preemption-bounded DFS, instruction-level single preemption by single stepping and fork, all job orders and thread counts", "bounded preemptions; pool stand-in; sequential consistency"),
 "C11": (MC, "exhaustive enumeration of operation histories up to a depth on one decoder, each step compared with a fresh decoder", "depth 3 (quick), 4 (thorough) over the file alphabet"),
 "C12": (MC, "exhaustive enumeration of limit x dimension boundary states and scan counts with an accounting allocator", "all boundary pairs for the chosen limits"),
 "C13": (MC, "explicit enumeration of stray-byte gaps, sampling declarations and mutated files in both modes", "bounded stray lengths and files"),
 "C14": (MC, "explicit-state enumeration of header layouts (insertions, groupings, permutations) of the file model, replayed on the real decoder", "bounded numbers of inserted segments"),
 "C15": ("exploration", "exhaustive enumeration of the single-fault rules at every site of model files on the real code", "single faults over a finite rule list"),
 "C16": ("fault_enumeration", "every cut point of every model file executed on the real code and compared with the intact decode block by block", "the files are a bounded set; cut points are complete"),
 "C17": (MC, "exhaustive enumeration of setter sequences up to a depth and entry points on the real API against an option-record model", "bounded sequence depth, boundary option values"),
 "C18": (MC, "explicit enumeration of chroma impulse/edge states x geometry, replayed on the real decoder against the integer triangle filter", "bounded image sizes; all sample value pairs"),

 "C19": ("exploration", "exhaustive enumeration of single faults at every site of model files, both entry points and modes, against the table of error kinds", "single faults over a finite rule list"),
 "C20": (MC, "exhaustive enumeration of calls and call histories on the real code under an accounting allocator", "bounded files and history depth"),
}
src = open(os.path.join(here, "mc/src/checks/mod.rs")).read()
done = re.findall(r'"(C\d\d)" =>', src)
checks = []
for i in sorted(done):
    lv, t, n = INFO[i]
    checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                   "technique": "model checking: " + t, "level": lv, "level_note": n})
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
na = [{"property": i, "reason": "check under construction"} for i in ids if i not in done]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
