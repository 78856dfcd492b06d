#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

BASE = ("The TLA+ specification (spec/MpcSpec.tla with exact ring arithmetic in spec/BigRing*.tla) is the oracle: TLC replays every "
        "recorded session of the real code against it. ")
SIM = "Parties run on a deterministic simulated network; randomness is seeded by the check. "
T = {
 "C01": ("TLA+ trace validation of TLC-generated and systematic programs (all u8/i8 values)", BASE + SIM + "Bounded by the explored programs, values and schedules; all 256 values of the 8-bit rings, boundary and random values of the others."),
 "C02": ("TLA+ trace validation of TLC-generated and systematic arithmetic programs", BASE + SIM + "Bounded by the explored programs and operand pairs."),
 "C03": ("TLA+ trace validation of dot-product programs over lengths, batches and masks", BASE + SIM + "Bounded by the explored lengths, batch shapes and masks."),
 "C04": ("TLA+ trace validation of bit programs over lengths, chunk sizes and one-hot patterns", BASE + SIM + "Bounded by the explored lengths and patterns; all 256 values of the 8-bit rings."),
 "C05": ("Exhaustive TLC model of the query plan; its plans run on the real code and trace-validated", BASE + SIM + "The plan (chunking, decision, refusal) is model-checked exhaustively up to 6 entries; real queries are sampled from those plans, with distances at, below and above the threshold."),
 "C06": ("Exhaustive TLC model of the query plan; refused plans run on the real code and trace-validated", BASE + SIM + "As C05, with masks just below and at the minimum."),
 "C07": ("TLA+ trace validation of sessions with one deviating party; exhaustive TLC model of products and coins, recorded schedules judged against it", BASE + SIM + "Every message of every operation of the base sessions is altered at least once per kind of base; alterations are sampled, so this does not exclude adaptive attacks beyond them. spec/Coin.tla (a cheater that waits, all schedules; four broken variants refuted) says when a coin may become known; spec/SetupTrace.tla judges that from the causal order of recorded sessions, and that challenges are drawn from the whole verification ring. spec/Batch.tla (errors fixed before the challenge; all errors and challenges; broken variants refuted) says how products checked together must be challenged, and its attack patterns are carried out against the real code."),
 "C08": ("TLA+ trace validation of sessions with one deviating party; exhaustive TLC model of products and coins, recorded schedules judged against it", BASE + SIM + "As C07; soundness error 2^-40 or less in the rings used."),
 "C09": ("TLA+ trace validation of sessions with one deviating party; exhaustive TLC model of proofs and coins, recorded schedules judged against it", BASE + SIM + "As C07; proofs come after the coin that chooses what is proved, challenges after the proofs, and both depend on every party's contribution."),
}
T.update(getattr(props, "MANIFEST", {}))
checks = []
for p in sorted(props.CHECKS):
    tech, note = T[p]
    checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                       evidence_file="evidence/%s.json" % p, technique=tech, level="model_checking", level_note=note))
allp = [json.loads(l)["id"] for l in open(os.path.join(props.ROOT, "properties.jsonl"))]
na = [dict(property=p, reason=getattr(props, "NOT_APPLICABLE", {}).get(p, "its check is not built yet")) for p in allp if p not in props.CHECKS]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="TLA+ (TLC). Every check builds harness/ from /repo's working tree with path dependencies; no hooks in /repo are needed. Known and repaired findings: known_findings.txt.")
json.dump(m, open(os.path.join(props.ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
