"""Writes MANIFEST.json from the claimed checks and the list of properties."""
import json
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTES = {
    "C01": "aged objects against fresh objects, compared evaluation by evaluation",
    "C02": "content digests of every array seen, rechecked at the end of the history",
    "C03": "the limits recomputed from simulated clock and event history at every check of the stopping rule",
    "C04": "every field of the result recomputed from point and event history",
    "C05": "start, end and best evaluated cost compared on costs that fail in regions",
    "C06": "twin runs under different clocks, entropy, random module states and hash seeds",
    "C07": "runs at all verbosities compared; printed rows parsed and compared with the log",
    "C08": "exceptions of 31 types injected at callbacks, manifold operations and stdout; identity of the object compared",
    "C09": "real threads under a seeded baton scheduler that preempts at source lines, and nested runs, compared with solo runs",
    "C10": "operation histories on all four backends compared with analytic derivatives",
    "C11": "constraint residuals of every point and vector in long adversarial histories",
    "C12": "scripted objectives against a small reference model of the search contract",
    "C13": "liveness: convergence within a calibrated bound after the last fault",
    "C14": "logs compared with an independent record of each run",
    "C15": "set-valued reference model of radius and acceptance over the trace of trial steps",
    "C16": "recorded plug-in arguments and a reference recurrence for the directions",
}

REASONS = {
    "C17": "pure functions of one call: no schedule, clock, fault, history or I/O decides them; input sampling or proof would, which is another technique (histories of these operations are covered by C11)",
    "C18": "pure function of one call's inputs; nothing for a simulator to schedule or fail (its effect on whole runs is covered by C13, C16)",
    "C19": "stateless array helpers; nothing for a simulator to schedule or fail",
    "C20": "a numerical diagnostic of one call that plots; its verdict depends only on its inputs, not on schedules or faults",
}


def main():
    claimed = [
        f"C{i:02d}" for i in range(1, 17)
        if os.path.exists(f"{VERIF}/simkit/checks/c{i:02d}.py")
    ]
    checks = []
    for ident in claimed:
        checks.append({
            "property": ident,
            "quick_cmd": f"VERIF_TIER=quick ./run.sh check {ident}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh check {ident}",
            "evidence_file": f"evidence/{ident}.json",
            "technique": "deterministic simulation with fault injection: " + NOTES[ident],
            "level": "exploration",
            "level_note": (
                "Seeded search over simulated executions; no claim beyond the "
                "explored executions. Trusts the simulator, the oracles and "
                "numpy/scipy; see DESIGN.md."
            ),
        })
    skipped = [
        {"property": k, "reason": v} for k, v in REASONS.items()
    ]
    for i in range(1, 17):
        ident = f"C{i:02d}"
        if ident not in claimed:
            skipped.append({"property": ident, "reason": "its check is not built yet"})
    data = {
        "version": 1,
        "setup_cmd": "./run.sh setup",
        "checks": checks,
        "not_applicable": skipped,
        "notes": (
            "No hooks in /repo: callbacks, plug-ins, manifold instances, stdout, "
            "time.* and os.urandom are seams that exist already."
        ),
    }
    with open(f"{VERIF}/MANIFEST.json", "w") as stream:
        json.dump(data, stream, indent=1)
        stream.write("\n")


main()
