"""Regenerates MANIFEST.json from the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
TECH = {
    "P01": ("seeded thread scheduler switching at source lines, results compared with the serial run",
            "seeded exploration of thread interleavings at source-line (sometimes bytecode) granularity; no exhaustiveness. Trusts that torch kernels themselves are thread safe."),
    "P02": ("interrupts and failing operations at seeded source lines / tensor operations, then retry on the same objects",
            "seeded exploration of crash points (every line and tensor operation is a candidate); state compared bit for bit, retry compared with the undisturbed run."),
    "P03": ("seeded histories of forward/backward/update/freeze/overwrite events against an implicit-function-theorem reference",
            "seeded exploration of histories; gradients compared with an independent reference at stated tolerances."),
    "P04": ("stop/crash/restart schedules over a simulated checkpoint disk, stitched run compared with the uninterrupted one",
            "seeded exploration of stop points, restarts and disk faults at stated tolerances."),
    "P05": ("transient and permanent faults injected into user equations at chosen evaluations, residual re-checked independently",
            "seeded exploration of fault sequences; termination is counted in evaluations, not in time."),
    "P06": ("per-test corruption injected into batches, healthy columns compared with the batch without the corrupt test",
            "seeded exploration of corruption kinds, positions and times."),
    "P07": ("simulated workers with reordering, regrouping, delay and duplicate delivery of tests; gathered results compared",
            "seeded exploration of delivery schedules and batch compositions."),
    "P08": ("kill/restart at seeded steps and source lines over a simulated checkpoint disk with torn/lost/corrupt writes",
            "seeded exploration of crash schedules; loss and parameter sequences compared bit for bit."),
    "P09": ("seeded histories of construction, training, inference and solve steps sharing the caller's tensors, bit compared",
            "seeded exploration of histories; every caller tensor compared bit for bit after each event."),
    "P10": ("the process-wide random stream replaced by a controlled one; every execution's sample sites recorded and checked",
            "seeded exploration; the random stream is under simulator control, sites are checked exactly."),
    "P11": ("allocator contents, random states, call history and hash seeds varied by the simulator; outputs bit compared",
            "seeded exploration of environments; identical bits required."),
    "P12": ("seeded histories of operations on shared solver objects with interrupted operations in between",
            "seeded exploration of operation histories against fresh objects and dense algebra."),
    "P13": ("simulated storage with read errors, short reads, reordering and label corruption behind the data loader",
            "seeded exploration of storage faults; loaded tensors compared with the stored data set."),
    "P14": ("simulator-controlled random stream including extreme draws and interleaved generators",
            "seeded exploration of random streams; invariants checked on every generated test and history."),
    "P15": ("seeded block schedules and transient faults in the user's equations, trajectories checked against a sequential reference recursion",
            "seeded exploration of block schedules and faults; refinement of the step-by-step recursion at tolerances that follow from the solver's."),
    "P16": ("optimiser histories with exploding, infinite and missing gradients, far draws, restarts and cut evaluations over bounded parameters",
            "seeded exploration of histories; every parameter value compared with a reference map and with the declared bounds."),
}
NA = {
    "N01": "pure functions of their arguments: no schedule, time, I/O, fault or history for a simulator to control (wrong derivatives do show up in P03 through the adjoint gradients)",
    "N02": "pure functions of their arguments: nothing for a simulator to control; plain input testing would be another technique",
    "N03": "single applications of pure linear algebra: nothing for a simulator to control (repeated use of the same objects is P12)",
    "N04": "deterministic array construction from arguments: no randomness, schedule, I/O or history to control (random generators are P14)",
    "N05": "a convergence-rate statement about pure numerics in the limit of small steps: no schedule, fault or history involved",
}


def main():
    checks = []
    for pid, (tech, note) in sorted(TECH.items()):
        if os.path.exists(os.path.join(HERE, "sim", "props", pid.lower() + ".py")):
            checks.append(
                {
                    "property": pid,
                    "quick_cmd": f"/opt/venv/bin/python run.py check {pid} --tier quick",
                    "thorough_cmd": f"/opt/venv/bin/python run.py check {pid} --tier thorough",
                    "evidence_file": f"evidence/{pid}.json",
                    "technique": T + tech,
                    "level": "exploration",
                    "level_note": note,
                }
            )
    have = {c["property"] for c in checks}
    na = [{"property": p, "reason": r} for p, r in sorted(NA.items())]
    na += [{"property": p, "reason": "check under construction"} for p in sorted(TECH) if p not in have]
    out = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python run.py setup",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: existing seams (callbacks, sys.settrace, torch dispatch modes, pyro poutines, random streams, file objects) are enough. Commits in /repo are fix: commits, listed in known-findings.json.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)


main()
