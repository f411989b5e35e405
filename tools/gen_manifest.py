#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and the checks present in checks/."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
MON = "runtime monitoring: "
T = {
 "C01": ("real solver under generated workloads, cover oracle on every returned solution (release and assertion builds)", "every instance/parameter pair explored; reach is the workload, not a proof"),
 "C02": ("real solver and greedy under generated workloads, cost oracle summing the given costs exactly", "exact for integer costs, up to accumulated rounding otherwise"),
 "C03": ("real solver and stages under generated workloads, bound compared with exhaustive or certified optimum or best known cover", "exact optimum for up to 13 rows and certified instances, upper bound otherwise; rounding allowance proportional to the multipliers"),
 "C04": ("histories of warm-started solves, offline monotonicity monitor over the recorded chain", "as explored"),
 "C05": ("virtual clock injected under the real solver, expiry enumerated over the clock readings of each run, basic-block work counter after expiry", "every clock reading of the small runs, sampled ones of the larger runs; assumes time is read through std::chrono::steady_clock"),
 "C06": ("repeated real runs with perturbed history, verbosity and memory contents, compared bit for bit", "as explored"),
 "C07": ("ThreadSanitizer on concurrent solves, loads and writes with injected delays, plus comparison with the result alone", "races on the schedules and code paths exercised"),
 "C08": ("AddressSanitizer, UBSan, LeakSanitizer, libstdc++ and the code's own debug assertions, valgrind memcheck, on valid inputs and several type configurations", "as explored"),
 "C09": ("sanitized parsers on mutated and grammar-generated files, soundness oracle on whatever they accept", "as explored; release assertions setting (the debug asserts on malformed content are out of scope)"),
 "C10": ("independent writers with varied layouts, real parsers, comparison with the written instance", "as explored"),
 "C11": ("round trips of the real writer/parser and real CLI processes under file-system faults, outputs checked by an independent reader", "as explored"),
 "C12": ("real option parser and CLI processes on generated command lines, compared with a reference interpretation", "as explored"),
 "C13": ("real greedy stage on generated states, additions replayed against a reference scoring monitor", "exact on states without score ties; set membership of best score otherwise"),
 "C14": ("real redundancy removal on generated covers, exhaustive oracle for at most ten redundant columns", "as explored"),
 "C15": ("real fixing steps in random sequences, residual instance and maps checked against a reference model", "as explored"),
 "C16": ("real pricing step on generated multipliers, core checked against a reference selection", "as explored"),
 "C17": ("range monitors with adversarial stub generators, reference xoshiro sequences", "extreme generator outputs enumerated, others sampled"),
 "C18": ("random call histories against the real Python module, checked step by step against a model", "as explored"),
 "C19": ("same instance through the CLI, C++ and Python interfaces, outputs compared", "as explored"),
 "C20": ("unit-cost runs compared with runs on the explicitly unit-cost instance, through all interfaces", "as explored"),
 "C21": ("builds with different index types run on the same workload and compared bit for bit", "type configurations listed in DESIGN.md"),
 "C22": ("full solver and 3-phase stage run on the same state, results and generator state compared", "as explored"),
 "C23": ("round-log monitor, CPU watchdog and basic-block work counter on the real solver", "bounded-time observation of termination: work bounds calibrated with a margin"),
 "C24": ("real text and number parsers compared with strtod/strtoll-like references on generated and exhaustive short strings", "as explored"),
 "C25": ("model-based random operation sequences on the real containers and helpers", "as explored"),
 "C26": ("real program at every verbosity level, outputs compared between levels, log checked offline against a trace specification", "figures are printed with two decimals; lines not recognised are not judged"),
 "C27": ("real subgradient and heuristic steps in sequences, results compared with their own trace and with reference bounds", "as explored; trace figures have two decimals"),
 "C28": ("refinement and 3-phase fixing steps in sequences, columns chosen compared with the rule computed in double precision", "ties and near ties decided either way"),
 "C29": ("rules fed with histories and compared with a model, first multiplier update and log of the real step compared with the formula", "values too close to a threshold are not judged; later updates only through schedule and bounds"),
 "C31": ("allocations, reads, writes and closes of the real code made to fail one after the other, outcome, leaks and later results monitored", "every allocation of small operations, sampled ones of large operations; in Python only allocations made below the module's own functions"),
 "C30": ("all allocations, descriptors and interpreter blocks counted over repetitions", "bound on the peak is three times what was ever observed"),
}
checks, na = [], []
for pid, (tech, note) in T.items():
    if (V / "checks" / f"{pid.lower()}.py").exists():
        checks.append({"property": pid, "quick_cmd": f"python3 run.py {pid}", "thorough_cmd": f"python3 run.py {pid} --tier thorough",
                       "evidence_file": f"evidence/{pid}.json", "technique": MON + tech,
                       "level": "fault_enumeration" if pid in ("C05", "C31") else "exploration", "level_note": note})
    else:
        na.append({"property": pid, "reason": "no check has been built for it yet"})
(V / "MANIFEST.json").write_text(json.dumps({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: the monitors use public entry points, a virtual steady_clock and compiler instrumentation. Each check builds what it runs from /repo's working tree into a temporary directory."}, indent=1) + "\n")
