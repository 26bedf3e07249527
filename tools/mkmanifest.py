"""Writes /verif/MANIFEST.json from the table below (kept in step with properties.jsonl)."""
import json, os

TECH = "deterministic simulation with fault injection: seeded search over "
C = {
    "P01": ("call histories of every component with injected interrupts, overwritten outputs and skipped or repeated derivative requests; refinement against a newly built copy",
            "Every component and group class found in the package is driven through seeded histories; each answer is compared with a freshly built copy in a pristine process. Sampled, not exhaustive; trusts OpenMDAO and openaerostruct."),
    "P02": ("interleavings of several live models in one process with injected crashes while building or running; refinement against each model alone",
            "Seeded interleavings of 2-4 models sharing the caller's lists and dictionaries; every answer compared with the model alone, every caller-owned object compared with what was handed in. Sampled."),
    "P03": ("schedules of the parallel training of the drag-polar tables (worker assignment, start and completion order, lag, barriers) over generated grids and wings; refinement of every table entry and of the answers at grid points against direct point analyses",
            "multiprocessing is replaced by a simulated pool of real forked processes in lock step; in 60 % of the runs the flow solver is a smooth stand-in with the interface of VLM / Aerostruct. Sampled; numbers of the flow solver itself are openaerostruct's."),
    "P04": ("histories of trainings that fail, are interrupted or lose a worker at seeded tasks, source lines and waits; refinement of every later answer against a surrogate trained without faults in a pristine process",
            "Faults: failing tasks, exceptions at seeded source lines of the training, failing pool start and wait, interrupts. Killed workers are out of scope (the standard pool itself hangs). Stand-in flow solver in most runs. Sampled."),
    "P05": ("interleavings of setups, changed inputs, evaluations, derivative requests and failing trainings of several surrogates in one or more problems; refinement of each against itself alone in a pristine process",
            "Explicit rejection of documented unsupported combinations is accepted. Stand-in flow solver in most runs. Sampled."),
    "P06": ("histories of processes building and evaluating engine decks over one simulated disk, with file-system errors, full disks, short writes, crashes in the middle of writes, overlapping processes and damaged, exchanged or outdated training files; refinement of every answer against a deck alone on an empty disk",
            "Runs a private copy of the current source whose raw tables are thinned to 9-24 points so that OpenMDAO's Kriging trains in a fraction of a second. An error is accepted only when a fault struck or files are damaged. Sampled."),
    "P07": ("histories of option changes, setups, setups failing at seeded source lines or with invalid options, and runs of one model object; refinement of every successful setup (structure, declared values, results, derivatives) against a newly created object",
            "Library classes with their option variants, generated trajectories and mission profiles. Leftovers of OpenMDAO itself in persistent groups (line-search bounds, scope cache, partials patterns) are cleared by the harness. Sampled."),
    "P08": ("histories of missions and trajectories with warm and cold starts, overwritten guesses, iteration limits, model errors, NaN, interrupts and repeated setups; refinement of every converged run against a newly built analysis and bounded recovery once the faults stop",
            "Equality within 1e-5 of each quantity's scale, totals within 1e-4. Runs in which round-off of the linear solver disturbed the inputs, or within 0.5 m/s of the decision-speed switch, are counted but not compared."),
    "P09": ("histories of designs over generated trajectories and the shipped mission profiles with in-flight events, faults, interrupts, cut-short solves and overwritten guesses; handover of every state checked after each converged run",
            "Generated phase structures (nesting, links, skipped states, renamed values) plus the library's profiles; the oracle computes from the declarations which state feeds which. Sampled, only converged runs are judged."),
    "P10": ("simulated trajectories, integrators, library parts and missions with step events, faults and repeated setups; independent quadrature of the recorded rates as reference model",
            "The reference integrates the recorded rate history by its own weights per declared rule; sampled node counts, time spans, unit mixes and event placements."),
    "P11": ("simulated flights with propulsor failures and recoveries, solver faults and repeated setups; conservation ledgers recomputed from engine flows and loads at every node",
            "Ledgers over all phases of every converged flight. Aircraft are assembled from library parts plus one stub jet engine. Sampled."),
    "P12": ("propulsor failure and recovery schedules over time in shipped twin systems and flights; refinement against the same system with both running",
            "Per-node comparison against the both-running reference at the same throttle, and null contribution of the failed one. Sampled schedules, throttles and conditions."),
    "P13": ("simulated balanced-field take-offs under histories of designs, faults, interrupts and cut-short solves; decision-speed invariants on every converged run",
            "Uses the library's switch tolerance of 0.1 m/s near decision speed = rotation speed. Sampled designs; only converged runs are judged."),
    "P14": ("simulated missions under histories of designs, in-flight failures, faults and cut-short solves; requested profile and force balance checked at every node of every converged run",
            "Checks recompute range, altitude, time and force balance from recorded histories with their own quadrature. Sampled; only converged runs are judged."),
    "P15": ("environments of fresh processes (hash seed, random streams, simulated clocks, worker schedules, processor and thread count, working directory, import order, collector); structure, declared values, results and derivatives compared with a neutral process, and the caller's random streams watched",
            "Library components, generated trajectories, missions, drag polars and the shipped examples; sampled environments. Equality to 1e-12 (1e-9 behind Newton solvers) for equal thread counts."),
    "P17": ("histories of library parts, shipped systems, closed loops and flights with failed propulsors, overloads, faults, interrupts and repeated setups; conservation of power, heat and flow in every part and between parts checked on every solved state",
            "Balances are recomputed from what the parts themselves take in and report. The refrigerated hybrid system does not converge as shipped, so only the design values it hands to its parts are checked. Sampled."),
    "P18": ("histories of parts, closed loops, trajectories and missions with interrupted derivative requests, faults, overwritten guesses and repeated setups; total derivatives compared with the slopes of further analyses of the same model at two step sizes",
            "Directional comparison of every computed quantity with drawn inputs; entries where the two step sizes disagree (kinks) are counted and not compared; 3e-3 relative, absolute floor 1e-4 of the quantity's size behind Newton solvers. Flow-solver based drag models are decided under P03-P05. Sampled."),
}
NA = {
    "P16": "the study loops are unreachable as shipped: they sit under `if __name__ == '__main__'` of three example scripts behind constants (run_type, write_logs) that the user must edit in the source, so there is no behaviour of the library to run",
    "P21": "pure function of altitude and speed: nothing for a simulator to schedule or to fail",
    "P22": "pure formulas: nothing for a simulator to schedule or to fail",
    "P23": "pure functions of declared equations and inputs: nothing to schedule or to fail (history and sharing effects are decided under P01 and P02)",
    "P24": "pure functions of the planform: nothing to schedule or to fail",
    "P26": "pure functions of the tank geometry: nothing to schedule or to fail",
    "P28": "validation of arguments at setup: a pure function of the options with no history, schedule or fault",
}
TODO = ["P%02d" % i for i in range(1, 17) if "P%02d" % i not in C]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [dict(property=k, quick_cmd="./check %s" % k, thorough_cmd="./check %s thorough" % k, technique=TECH + t, level="exploration", level_note=n)
               for k, (t, n) in sorted(C.items())],
    "not_applicable": [dict(property=k, reason=r) for k, r in sorted(dict({t: "no check built yet" for t in TODO}, **NA).items())],
    "notes": "No hooks in /repo: every seam is reached by substituting modules, functions and processes from outside. See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
