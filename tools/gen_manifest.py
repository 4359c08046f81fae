#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, subprocess
NOTE = ("Seeded search: no violation in the runs of the tier. Assumes that the stub machine executes instructions as dice-runtime is written to "
        "(dice-runtime does not compile), and that the reference evaluator states the language correctly. A share of the runs uses programs edited at the level of tokens, read back by a parser of the simulation's own.")
T = "deterministic simulation with fault injection: %s"
CHECKS = {
 "C01": ("seeded programs against a simulated host, history compared with a reference evaluator", NOTE),
 "C02": ("host-call failures, aborted activations and re-entrant callbacks injected at seeded points, history compared with a reference evaluator", NOTE),
 "C03": ("failed and malformed results injected at seeded host calls, history compared with a reference evaluator", NOTE),
 "C04": ("nulls and non-booleans injected at seeded host calls, history compared with a reference evaluator", NOTE),
 "C05": ("seeded callback schedules (delay, loss, duplication, reordering, re-entrance) on a simulated clock, history compared with a reference evaluator", NOTE),
 "C06": ("seeded host iterators (early end, malformed items, failures), history compared with a reference evaluator", NOTE),
 "C07": ("nulls and ill-typed values injected at seeded host calls, history compared with a reference evaluator", NOTE),
 "C08": ("seeded class hierarchies under re-entrant callbacks, history compared with a reference evaluator", NOTE),
 "C09": ("module-load failures and failures inside modules injected at seeded points, history compared with a reference evaluator", NOTE),
 "C10": ("frame invariants monitored at every instruction of seeded runs with host faults", NOTE),
}
EXTRA = {}
NOT = {
 "C16": "A pure function of the text: no concurrency, time, I/O, host or fault it could depend on. Damaged input is covered by C13.",
 "C17": "A pure function of text and offset: no concurrency, time, I/O, host or fault it could depend on.",
 "C18": "A static fact about tables of codes and messages; no execution, schedule or fault decides it.",
}
try:
    exec(open('/verif/tools/manifest_extra.py').read())
except FileNotFoundError:
    pass
props = [json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
for p in props:
    if p not in CHECKS and p not in NOT:
        NOT[p] = "No check is registered for it yet."
m = {
 "version": 1,
 "setup_cmd": "/verif/run.sh build",
 "hooks": HOOKS if 'HOOKS' in globals() else {"guard": "none", "enable": "no hooks are needed"},
 "checks": [{
   "property": p,
   "quick_cmd": f"/verif/run.sh check {p} --tier quick",
   "thorough_cmd": f"/verif/run.sh check {p} --tier thorough",
   "evidence_file": f"evidence/{p}.json",
   "technique": T % t,
   "level": "exploration",
   "level_note": n,
 } for p, (t, n) in CHECKS.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in NOT.items() if p not in CHECKS],
 "notes": "Replay a failure with /verif/run.sh replay FILE. See DESIGN.md.",
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
