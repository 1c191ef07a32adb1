#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open('properties.jsonl')]
EXPL = "explicit-state model checking: exhaustive enumeration of bounded CPU states, model of the CPUID manuals compared with the real library on every state"
TECH = {
 'C02': "exhaustive enumeration of bounded CPU states, each compared with the same CPU under other unadvertised contents (non-interference by self-composition on the real code)",
 'C03': "exhaustive enumeration of bounded CPU states, every public operation of the real library run on each under overflow checks and a supervisor for crashes and hangs",
 'C04': "stateless exploration of all operation histories up to a depth on the real library, each answer compared with a fresh handle's",
 'C12': EXPL + "; all sequences of sub-leaf answers by stateless depth-first search",
 'C13': EXPL + "; all sequences of sub-leaf answers by stateless depth-first search",
 'C15': EXPL + "; all sequences of sub-leaf answers by stateless depth-first search",
 'C16': EXPL + "; all sequences of sub-leaf answers by stateless depth-first search",
 'C22': "exhaustive enumeration of bounded CPU states and iterator positions, every rendering compared with the accessors",
 'C23': "explicit-state model checking: exhaustive enumeration of bounded CPU states, a model of the report compared with what the real library prints",
 'C24': "explicit-state model checking: exhaustive enumeration of maxima and contents, a model of the dump compared with what the real library prints",
 'C25': "exhaustive enumeration of bounded register contents, round trip on the real code",
 'C26': "exhaustive enumeration of bounded CPU states in lock-step over all feature configurations of the real library",
 'C33': "explicit-state model checking: exhaustive enumeration of bounded CPU states on the real library built for 32-bit x86, in lock-step with the 64-bit build and against the models of the other checks",
 'C34': "explicit-state model checking: exhaustive enumeration of bounded CPU states in lock-step over targets, the real library built for a big-endian target and interpreted, compared with the real library run natively",
 'C28': "stateless model checking of the real library on real threads under a controlled scheduler: all interleavings of CPUID executions up to a preemption bound, and every machine instruction as an interruption point, each result compared with the operation run alone",
 'C29': "exhaustive enumeration of argument vectors, environments and processors, the real program run on each, its output compared with a model of the report and of the dump",
 'C30': "exhaustive enumeration of pairs of bounded CPU states on the real code",
 'C31': "stateless exploration of all programs of iterator methods up to a length on the real library, compared with plain iteration",
 'C32': "exhaustive enumeration of bounded CPU states, every operation of the real library run under an allocator that counts",
 'C27': "exhaustive enumeration of leaves, sub-leaves, processors, constructors and reader kinds on the real code, compared with executing the instruction",
}
NOTE = "Every state within the bounds of DESIGN.md is visited; contents further from the listed ones than the bounds are not. Trusts the model of the CPUID manuals in mc/src (written from the manuals, not from the code), rustc, and the machine."
NOTES = {
 'C02': "Self-composition; trusts the model only for which answers are advertised.",
 'C03': "No model values are used; trusts debug assertions and overflow checks of rustc for detecting overflow.",
 'C04': "No model values are used; the reference is a fresh handle of the same library.",
 'C22': "The reference is the library's own accessors (decided by C06 to C21).",
 'C25': "JSON, CBOR and bincode are run; other serde formats are not.",
 'C26': "The reference is the default build.",
 'C33': "Runs natively, as a 32-bit program on a 64-bit processor; the standard library is built from its sources.",
 'C34': "The other targets are interpreted by Miri, not run on processors; default features.",
 'C28': "Threads are preempted where the library executes CPUID; at machine instructions, one operation runs to its end inside the other; the reference is the operation run alone.",
 'C29': "Only the CPU of the machine the check runs on; trusts the argument parser's conventions as modelled.",
 'C30': "The reference is the library's own accessors.",
 'C31': "The reference is plain iteration of the same library (decided by C11 to C18).",
 'C32': "Counts allocations of the calling thread through the global allocator.",
 'C27': "Only the CPU of the machine the check runs on.",
}
checks = []
for p in ps:
    i = p['id']
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
      "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, EXPL), "level": "model_checking", "level_note": NOTES.get(i, NOTE)})
m = {"version": 1, "setup_cmd": "./check.sh --setup", "checks": checks, "not_applicable": [],
 "notes": "No hooks: everything is observed through the public interface. Known and repaired defects: known_findings.txt."}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
