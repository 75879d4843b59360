#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (run by hand after editing the tables below)."""
import json
P = [json.loads(l) for l in open("properties.jsonl")]
T = {
"C01": "deterministic simulation: seeded histories with outliers, clock jumps and rejected retunes, every sample against an executable reference model",
"C02": "deterministic simulation: outlier/NaN faults and resets at arbitrary points, refinement against a brand new twin",
"C03": "deterministic simulation: seeded histories of accepted/rejected requests, refinement against a brand new filter in its own process",
"C04": "deterministic simulation: rejected requests injected into running streams, before/after equality and continuing reference model",
"C05": "deterministic simulation: repeated and interleaved bad requests, verdicts against a brand new filter",
"C06": "deterministic simulation: copies with destruction, relocation and memory poisoning injected at arbitrary points, cross-invariants after every step",
"C07": "deterministic simulation: seeded thread scheduler preempting at memory accesses, bit-exact comparison with each thread alone",
"C08": "deterministic simulation: seeded thread scheduler preempting at memory accesses, bit-exact comparison with each thread alone",
"C09": "deterministic simulation: allocation failures injected at arbitrary points, comparison with the failure-free run, leak accounting",
"C10": "deterministic simulation: disturbances, losses, detours and restarts injected, bounded-settling check against an undisturbed twin",
"C11": "deterministic simulation: the same seeded history in both builds with process death at rejections and restart behind them",
"C12": "deterministic simulation: queries at arbitrary points of seeded histories, cross-invariants and reference model driven by the reported coefficients",
"C13": "deterministic simulation: histories of disturbances and retunes, then bounded-time tone measurements against the specified magnitude",
"C14": "deterministic simulation: replicas per topology under resets, losses and retunes, agreement and bounded re-convergence",
"C15": "deterministic simulation: interleavings of sample types over one stream, twin fed with doubles",
"C16": "deterministic simulation: the same seeded history in environments the simulator varies (memory contents, addresses, stack/heap leftovers, unrelated filters, threads, process state, before main, during exit), bit-exact comparison, guard bytes",
"C17": "deterministic simulation: seeded interrupt controller nesting operations at memory accesses of one thread, bit-exact comparison with each party undisturbed",
"C18": "deterministic simulation: threads stalled or killed at memory accesses by a seeded scheduler, progress of the others within a bounded number of steps and bit-exact results",
"C19": "deterministic simulation: seeded histories with faults and long streams, executed work of every operation counted and compared with a fresh filter",
}
N = {
"C01": "Sampled histories. Trusts the long-double model of the three topologies; tolerance grows with the noise gain of the sections, ill-conditioned sections and streams after NaN/inf are not compared.",
"C02": "Sampled histories. Trusts that a brand new object is a correct reference.",
"C03": "Sampled histories. Trusts the fresh filter built in a separate process; agreement to 1e-9 relative.",
"C04": "Sampled histories. Configuration and reports compared bit for bit, delay lines through the continued stream (tolerance of C01).",
"C05": "Sampled histories. Verdicts of fresh filters come from separate processes; the list of always-rejected arguments is the one of the statement.",
"C06": "Sampled histories. What assignment does to the memory of past samples is left open.",
"C07": "Sampled schedules; sequentially consistent memory, switches at memory accesses of library code (compiler-inserted), one thread at a time.",
"C08": "Sampled schedules; sequentially consistent memory, switches at memory accesses of library code (compiler-inserted), one thread at a time.",
"C09": "Sampled histories and failure points; the allocator of the process is replaced by the simulator's, allocation of the exception object itself is not failed.",
"C10": "Sampled histories; only requests whose specified settling time is at most 12000 samples, settling bound computed from the specification with a factor 4.",
"C11": "Sampled histories; both builds with the same flags and compiler.",
"C12": "Sampled histories; tolerances follow the conditioning of the sections.",
"C13": "Sampled histories, up to 19 tones each; requests settling within 12000 samples; tolerance 2e-6 of the gain plus 1e-8 of the peak.",
"C14": "Sampled histories; agreement to 1e-9 of the signal scaled with the noise gain.",
"C15": "Sampled histories; values that do not fit the sample type are not judged.",
"C16": "Sampled histories, 12 environments; address space layout is under the simulator's control.",
"C17": "Sampled placements; interruptions strike at memory accesses of library code (compiler-inserted), not inside the allocator and not while the library holds a lock.",
"C18": "Sampled placements; threads stop at memory accesses of library code (compiler-inserted) or at lock operations, not inside the allocator.",
"C19": "Work is counted in basic blocks and memory accesses of library code; the bound allows a factor of two and a constant.",
}
NA = {
"D01": "A pure function of the arguments of one request: no schedule, fault, clock or history in it, so there is nothing to simulate. What histories can do to a stable design is decided by C03 and C10.",
"D02": "A pure function of the arguments of one request and a frequency: nothing to simulate. The part that depends on histories (specified gain after disturbances) is C13.",
"D03": "A pure function of the arguments of one request: nothing to simulate. C13 measures the resulting gain after histories, on sampled parameters.",
"D04": "An equivalence of two pure functions of the arguments: nothing to simulate.",
"D05": "A pure conversion between two representations of one section: nothing to simulate. Consistency of what a filter reports during histories is C12, the gain of filters built from poles and zeros C13.",
"D06": "The set of recognised bad arguments is a pure function of the arguments: nothing to simulate. That the verdict does not depend on history is C05.",
"D07": "A pure function of the coefficients handed over: nothing to simulate. Imports that are rejected half way, repeated or copied are in C01, C03, C04 and C06.",
}
m = {"version": 1, "setup_cmd": "python3 check.py --build",
 "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
   "evidence_file": "evidence/%s.json" % p["id"], "technique": T[p["id"]], "level": "exploration", "level_note": N[p["id"]]} for p in P if p["id"] in T],
 "not_applicable": [{"property": p["id"], "reason": NA[p["id"]]} for p in P if p["id"] in NA],
 "notes": "No hooks in /repo: the seams are the compiler (memory accesses of library code become yield points), the linker (malloc family, memcpy family, locks) and process boundaries (fork)."}
assert len(m["checks"]) + len(m["not_applicable"]) == len(P)
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
