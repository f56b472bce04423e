#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes here."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
note = {
 "C01": "Seeded histories of evaluations (moves chosen to hit caches: repeats, one coordinate, same sum, mirrored, boundary, invalid, failing) on the real package; every value is compared with that of a pristine process.",
 "C02": "Seeded interleavings at the yield points inside evaluations and fits (nesting, forks, discards) of look-alike models; every value is compared with that of a pristine process.",
 "C03": "Native and R allocation failures at seeded points of real operations, with redzones, poison and quarantine; afterwards everything is compared with pristine processes.",
 "C04": "Interrupts raised through R's own pending flag at seeded yield points and native allocations; lateness, outcome, state and later results are checked.",
 "C05": "Failing trial points injected at the yield point by region, call or start; the fit is compared with its twin in which the same points have deviance Inf, and with references.",
 "C06": "Fingerprints of inputs, held objects and session state around every operation, under seeded faults and session configurations.",
 "C07": "The user's draws interleaved with operations under all generator kinds; the stream is replayed without the operations, the values with them alone.",
 "C08": "All clocks simulated, advanced and jumped at seeded points, all verbosity levels and a full output device; the fit is compared with its reference.",
 "C09": "Epochs that end normally or by simulated kill at a seeded point, with only files surviving; all that is done with what was kept is compared with an uninterrupted process.",
 "C10": "Seeded garbage collection schedules (gctorture windows, collections at yield points and after discards) and memory contents (poison, quarantine, redzones), compared with pristine processes.",
 "C11": "Cycles of identical work with seeded faults; native blocks are counted exactly by the simulated allocator, R's heap after full collections.",
 "C12": "Simulated clock decides the duration of every evaluation; the captured output is checked against the recorded history of evaluations.",
}
na = {
 "C13": "A pure function of model and parameters: no schedule, clock, fault or interleaving for a simulator to decide; it needs numerical verification against exact integrals.",
 "C14": "Closed-form derivatives, pure functions of a number; symbolic or differential testing decides them, not simulation.",
 "C15": "Agreement of approximations is a pure numerical property of input; nothing nondeterministic in it (the draws of importance sampling are covered by C07).",
 "C16": "Formula expansion is a pure function from formula and data to matrices; no fault or schedule is involved.",
 "C17": "An input metamorphic relation on a pure function; no schedule, fault or history is involved.",
 "C18": "An input metamorphic relation on a pure function; no schedule, fault or history is involved.",
 "C19": "Input validation is a pure function of the arguments.",
 "C20": "Arithmetic and formatting of one object; a pure function of the fit (its stability across restarts is covered by C09).",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash sim/build.sh .build /repo", "checks": [], "not_applicable": [],
     "notes": "No hooks are needed in /repo: the simulator interposes on the allocator, clocks, entropy and R's interrupt flag from outside (LD_PRELOAD) and on lme4's PIRLS entry point from R."}
for p in props:
    i = p["id"]
    if i in note:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection", "level": "exploration",
                            "level_note": note[i] + " Sampled, not exhaustive; trusts R, lme4, Matrix and Rcpp as installed and the reference executions in fresh forked processes."})
    else:
        m["not_applicable"].append({"property": i, "reason": na[i]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
