"""Writes /verif/properties.jsonl (kept as Python so that the text stays readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = [observe]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


A = "openconcept/"
OAS = A + "aerodynamics/openaerostruct/"

prop("P01", "A model's answers depend only on its current inputs, not on its history",
     "Once a model component has been evaluated at some inputs, its outputs and its derivatives are the ones a newly built copy would give at those inputs. "
     "Earlier evaluations at other inputs, repeated or skipped derivative requests, overwritten output guesses, and evaluations that were interrupted or raised an error part-way leave no trace in later answers.",
     ["histories", "crash_points", "inputs", "configurations"],
     "every component of the library and its options, every finite sequence of evaluate / linearize / overwrite-guess / interrupted-evaluation steps over any inputs in the component's valid range",
     "The unit tests evaluate each component once or twice in a fresh problem and check derivatives at the same point; none replays a history, none interrupts an evaluation, and a stale value left by an earlier point is invisible to them.",
     [A], [("compute/compute_partials/linearize of every component", A + "**"),
           ("saved inputs and unscaled mesh reused by the derivative routine", OAS + "mesh_gen.py"),
           ("class-level training cache", OAS + "drag_polar.py, aerostructural.py"),
           ("in-place and conditional writes to outputs and partials", A + "utilities/selector.py, mission/phases.py, utilities/math/integrals.py, costs/costs_commuter.py")],
     state=[("outputs, partials vectors", "persist between evaluations; entries a branch does not assign keep their old value")],
     observe="outputs and Jacobian of the component after run_model / linearize")

prop("P02", "Models living in one process do not influence each other",
     "Building, configuring, evaluating or discarding one model never changes the answers or derivatives of any other model in the same process, whether they use the same building blocks with the same or with different options. "
     "Building a model also leaves the option values, tables and dictionaries the caller handed in unmodified.",
     ["histories", "schedules", "configurations"],
     "every interleaving of build, setup, evaluate, linearize, discard and crash steps of two or more models assembled from the same or different components with the same or different options",
     "Each unit test builds one model and throws it away; test runners do share a process but no test compares a model's numbers with and without a neighbour, and no test interleaves two.",
     [A], [("class attributes and module globals", OAS + "drag_polar.py, aerostructural.py"),
           ("mutable default arguments and caller-owned dictionaries and lists", A + "mission/mission_groups.py, utilities/dvlabel.py, utilities/dict_indepvarcomp.py, utilities/math/*.py"),
           ("options stored by reference", A + "utilities/math/add_subtract_comp.py, multiply_divide_comp.py, combine_split_comp.py")],
     observe="outputs and Jacobians of every live model; deep comparison of caller-owned objects before and after")

prop("P03", "Parallel drag-polar training gives the serial answer for any schedule",
     "The lift, drag, weight, failure and derivative tables produced by training a wing drag-polar surrogate contain at every grid point exactly what analysing that point alone would give. "
     "The number of worker processes, the order in which they pick up and finish points, which worker ran which point, and whether a progress bar is shown make no difference.",
     ["schedules", "configurations", "inputs"],
     "every worker count, chunking, assignment of points to workers and completion order, with and without the optional progress bar, for any grid shape and wing",
     "The tests run on whatever the operating system schedules that day, compare only a couple of interpolated values at 3e-2 tolerance, and never take the progress-bar branch because the optional package is not installed.",
     [OAS + "drag_polar.py", OAS + "aerostructural.py"],
     [("fan-out of test points to the process pool and index-based collection", OAS + "drag_polar.py compute_training_data"),
      ("same for the aerostructural model", OAS + "aerostructural.py compute_training_data")],
     observe="training outputs and partials of the data-generation component")

prop("P04", "A failed or interrupted surrogate training never poisons later answers",
     "If training a drag-polar surrogate fails or is interrupted at any point, the failure is reported to the caller, and every later evaluation or derivative request either fails again or returns the same values a fresh model would. "
     "It never returns zero, stale or partly filled tables as if they were results, and once the cause is gone a retry with the same inputs succeeds.",
     ["crash_points", "fault_sequences", "histories"],
     "every sequence of evaluations and derivative requests with worker exceptions, pool start-up failures, interrupts and errors at any line of the training, at the same or different wing inputs",
     "No test makes a training point fail; a failure only shows up in the call after the one that raised.",
     [OAS + "drag_polar.py", OAS + "aerostructural.py"],
     [("training cache written around the training call", OAS + "drag_polar.py VLMDataGen.compute"),
      ("training cache written around the training call", OAS + "aerostructural.py OASDataGen.compute")],
     state=[("cached mesh / planform key", "what the cached tables are believed to belong to"), ("cached CL, CD, partials", "the tables")],
     observe="return value or exception of run_model / linearize after a failed run")

prop("P05", "Drag-polar surrogates with different settings can coexist",
     "Several drag-polar surrogates in one model or one process, with different training grids, panel counts, wings, temperatures or non-wing drag, each return the values and derivatives they would return alone. "
     "A combination that is not supported is rejected with an error rather than answered with another surrogate's data. Training arrays and surface options handed to several surrogates stay as the caller gave them.",
     ["histories", "schedules", "configurations"],
     "every interleaving of setup, evaluation and derivative requests of two or more surrogates over settings drawn from a small set so that some settings coincide and some differ",
     "Tests only ever build surrogates of identical settings side by side and wipe the shared state between tests.",
     [OAS + "drag_polar.py", OAS + "aerostructural.py"],
     [("training grid, cached inputs and tables held on the class", OAS + "drag_polar.py VLMDataGen.setup/compute/compute_partials"),
      ("same for the aerostructural surrogate", OAS + "aerostructural.py OASDataGen.setup/compute/compute_partials")],
     observe="training outputs, partials and surrogate outputs of each instance")

prop("P06", "Engine-deck answers do not depend on the state of the on-disk cache",
     "A jet-engine deck returns the same thrust, fuel flow and temperature or surge-margin values and derivatives whether its stored training files are present, absent, left over from other data, truncated, corrupted or unwritable, or the call fails with an error; it never returns wrong numbers. "
     "Decks of different kinds or sizes used one after another or after a failed attempt do not affect each other through those files.",
     ["fault_sequences", "crash_points", "histories", "configurations"],
     "every sequence of deck constructions and evaluations with missing, stale, foreign, torn, bit-flipped cache files, read and write errors, full disks, and crashes during the cache write",
     "Tests run with a warm, intact cache and compare a few points; no test corrupts, removes or crosses cache files, and retraining takes minutes on the full data.",
     [A + "propulsion/cfm56.py", A + "propulsion/N3.py", A + "propulsion/rubberized_turbofan.py"],
     [("file names of the stored training data and the data they are trained on", A + "propulsion/cfm56.py, N3.py"),
      ("loading of the raw deck tables", A + "propulsion/cfm56.py, N3.py")],
     state=[("training cache files", "the only durable state of the library")],
     observe="deck outputs and derivatives, exceptions, content of the cache directory")

prop("P07", "A model can be set up again and again with the same result",
     "Setting up the same model object repeatedly, with or without running it in between, after a setup that failed, or after changing its options back and forth, gives each time the model and the results that a newly created object with those options gives. "
     "Nothing from an earlier setup, such as phase links, integrated states, connections or automatically added parts, survives into the next.",
     ["histories", "configurations", "crash_points"],
     "every sequence of option changes, setups, interrupted setups and runs of trajectories, phases, integrators, missions and library groups",
     "Tests call setup exactly once per object.",
     [A + "mission/mission_groups.py", A + "mission/profiles.py", A + "utilities/math/integrals.py", A + "utilities/math/combine_split_comp.py"],
     [("list of phase links kept on the trajectory object", A + "mission/mission_groups.py TrajectoryGroup"),
      ("automatically added integrator and automatic component counter", A + "mission/mission_groups.py IntegratorGroup"),
      ("integrand registry", A + "utilities/math/integrals.py Integrator")],
     observe="variables, connections and results after setup and run")

prop("P08", "A converged mission does not depend on how the solver got there",
     "When a mission analysis reports convergence, its results and total derivatives are those of a freshly built analysis with the same inputs, whatever designs were analysed before, whatever starting guesses were left behind, and whether earlier runs failed, were cut short or raised errors inside the aircraft model. "
     "After the last fault, re-running with the original starting guesses converges again within the same iteration budget.",
     ["histories", "fault_sequences", "crash_points", "inputs"],
     "every sequence of solves over designs, flight profiles, warm and cold starts, iteration limits, and errors or interrupts injected at arbitrary evaluations, for the shipped mission profiles and aircraft",
     "Example tests solve each mission once from one starting guess and compare a handful of numbers.",
     [A + "mission/phases.py", A + "mission/profiles.py", A + "mission/mission_groups.py"],
     [("balance and implicit components solved by Newton in every phase", A + "mission/phases.py"),
      ("decision-speed residual with branch switching", A + "mission/phases.py BFLImplicitSolve"),
      ("integrators and thermal states in the solver loop", A + "utilities/math/integrals.py, thermal/thermal.py")],
     observe="all outputs of the mission after a converged run; totals")

prop("P09", "Linked phases hand over every shared state without a jump",
     "In a mission built from linked phases, every integrated quantity that two consecutive phases share starts the later phase with exactly the value it had at the end of the earlier one, unless the user asked to skip it, and a skipped or unshared quantity keeps its own initial value. "
     "This holds for any number, order and nesting of phases and states and for any failures that occur along the flight.",
     ["programs", "configurations", "fault_sequences", "inputs"],
     "every assembly of phases, nesting depth, mix of integration declarations, renamed initial/final values, skipped states and in-flight failure schedule, and every shipped mission profile",
     "Tests check continuity for two or three hand-written phase chains with one or two states.",
     [A + "mission/mission_groups.py", A + "mission/profiles.py"],
     [("automatic discovery of states in a phase", A + "mission/mission_groups.py find_integrators_in_model"),
      ("phase linkage by promoted name", A + "mission/mission_groups.py TrajectoryGroup._link_phases"),
      ("phase order of the shipped missions", A + "mission/profiles.py")],
     observe="first and last node of each state in each phase")

prop("P10", "Integrated histories are the time integral of the reported rates",
     "Over every phase, each integrated quantity starts at its initial value and changes by the time integral of the rate reported at the same nodes over the phase's actual duration, and its reported final value is its value at the last node. "
     "This holds for every integration rule, way of giving the time span, mix of units, number of quantities and sub-intervals, and for any rate history including abrupt in-flight events, and it stays true when quantities are driven by one another. The derivatives of such a history can be requested at any of them.",
     ["programs", "configurations", "inputs", "histories"],
     "every set of integrated quantities with own rates, units, start values, names and bounds; any phase duration, rate history with step events, node count, integration rule; feedback between quantities",
     "Tests integrate smooth hand-picked functions of one or two states and check missions only through end-of-mission totals.",
     [A + "utilities/math/integrals.py", A + "mission/mission_groups.py", A + "mission/phases.py"],
     [("integration matrices for both rules", A + "utilities/math/integrals.py"),
      ("duration wiring in phases", A + "mission/mission_groups.py PhaseGroup.configure")],
     observe="state, rate and duration values of each phase")

prop("P11", "Weight, fuel and battery charge are conserved over a mission",
     "At every instant of a simulated mission the aircraft's weight equals its take-off weight minus the fuel burned so far, the fuel burned so far equals the sum over all flown phases of the fuel its engines consumed, and battery charge falls by exactly the energy drawn divided by the installed energy. "
     "Fuel burned never decreases and no phase boundary, engine failure, reserve or loiter segment creates or loses fuel or charge.",
     ["inputs", "fault_sequences", "histories", "configurations"],
     "every shipped mission profile and example aircraft, any range, altitude, speed schedule and power split, any in-flight propulsor failure schedule",
     "Example tests compare end-of-mission totals of one mission per aircraft with recorded numbers; nothing checks the balance along the flight.",
     [A + "mission/profiles.py", A + "mission/phases.py", A + "energy_storage/battery.py", A + "propulsion/systems"],
     [("fuel integration and phase linkage", A + "mission/*.py"), ("state of charge integration", A + "energy_storage/battery.py SOCBattery"),
      ("power split bookkeeping", A + "propulsion/splitter.py")],
     observe="weight, fuel flow, fuel used, battery power and charge at all nodes of all phases")

prop("P12", "A propulsor failure removes that propulsor and nothing else",
     "At every instant at which one propulsor of a twin is marked failed, its contribution to thrust, fuel flow and electrical or shaft power draw is zero, and the surviving propulsor delivers what it would deliver at the same throttle with both running. "
     "Instants without the failure are unaffected, and when the failure ends the nominal values return.",
     ["fault_sequences", "inputs", "configurations", "histories"],
     "every on/off failure pattern over time, throttle, flight condition and rating for the shipped twin propulsion systems",
     "Tests only evaluate both-running or all-failed states at one or two points.",
     [A + "propulsion/systems", A + "utilities/math/multiply_divide_comp.py", A + "mission/phases.py"],
     [("failed-engine throttle masking", A + "propulsion/systems/*.py"), ("which take-off segments are flown with the failure", A + "mission/phases.py")],
     observe="thrust, fuel flow, electric load, shaft power and heat of each propulsor at every node")

prop("P13", "The balanced field take-off honours the engine-failure decision speed",
     "A converged take-off analysis has a decision speed not above rotation speed, and either the distance to continue with a failed engine equals the distance to stop, or the decision speed is rotation speed and stopping is no longer than continuing. "
     "The continued take-off passes through rest, decision speed, rotation speed and lift-off speed without a gap in time, distance or speed, and ends at the obstacle height; the engine is failed in exactly the segments after the decision speed.",
     ["inputs", "fault_sequences", "histories"],
     "every aircraft weight, thrust level, lift capability, friction, field altitude, failure schedule, starting guess and solver history for which the analysis converges",
     "Tests check distances for one configuration of each example; the branch in which decision speed equals rotation speed is hardly touched.",
     [A + "mission/phases.py", A + "mission/profiles.py"],
     [("decision-speed residual", A + "mission/phases.py BFLImplicitSolve"), ("ground roll, rotation and obstacle phases", A + "mission/phases.py"),
      ("take-off phase chaining", A + "mission/profiles.py")],
     observe="speeds, distances, heights, propulsor state of each take-off segment")

prop("P14", "A converged mission flies the requested profile in force balance",
     "A converged mission covers exactly the requested range, reaches the requested cruise and reserve altitudes and returns to the airport, holds for the requested time, and at every instant of steady flight thrust equals drag plus the along-path weight component while lift carries the rest. "
     "Ground distance, altitude and time are consistent with the commanded vertical and air speeds at every node.",
     ["inputs", "configurations", "fault_sequences", "histories"],
     "every shipped mission profile, requested range, altitude, speed schedule, reserve setting, aircraft model and in-flight failure schedule for which the analysis converges",
     "Tests fly one profile per mission class and look at fuel totals.",
     [A + "mission/phases.py", A + "mission/profiles.py"],
     [("duration and throttle balances of steady flight", A + "mission/phases.py SteadyFlightPhase, ClimbAngle..., Groundspeeds"),
      ("range and altitude bookkeeping", A + "mission/profiles.py")],
     observe="range, altitude, speed, thrust, drag, weight, lift coefficient at all nodes")

prop("P15", "The same script gives the same numbers in every process",
     "Running the same model with the same inputs gives identical results and derivatives in every fresh process, whatever the hash seed, the state of the global random generator, the wall clock, the working directory, the import order or the number of processors. "
     "Running a model does not consume or reseed the caller's random stream.",
     ["schedules", "configurations", "histories"],
     "every library component and example mission, hash seed, random-generator state, clock value, working directory, processor count and import order",
     "Tests fix the hash seed and run one process; results within test tolerance hide run-to-run differences.",
     [A], [("random initial guesses", A + "thermal/thermal.py"), ("set and dictionary iteration orders during assembly", A + "mission/mission_groups.py"),
           ("training-time clock reads", OAS + "drag_polar.py, aerostructural.py"), ("package-relative data paths", A + "propulsion/cfm56.py, N3.py")],
     observe="digest of all outputs and Jacobians across processes; state of the random generators before and after")

prop("P16", "A crashed or failed case of a parametric study is never taken for a finished one",
     "When a parametric study that writes one results file per case is killed or a case fails at any point, restarting it runs every case that had not finished and skips only those that had. "
     "A failing case does not stop the study and never destroys the results of other cases.",
     ["crash_points", "fault_sequences"],
     "every kill point and failing case of the shipped study scripts",
     "The study loops run only when an example is executed as a script; no test executes them.",
     [A + "examples/HybridTwin.py", A + "examples/HybridTwin_thermal.py", A + "examples/HybridTwin_active_thermal.py"],
     [("skip-if-results-file-exists loop with rename on failure", A + "examples/HybridTwin.py __main__")],
     observe="results files on disk after restart")

prop("P17", "Power, heat and flow balance in every part and between parts at every instant",
     "In every model that has been solved, each motor, generator, turboshaft, battery, power splitter, heat sink, heat exchanger, heat pump, coolant reservoir, duct and flow junction gives out, loses or stores exactly "
     "the power, heat or flow it takes in, whatever the setting, loading or failure. What one part gives is what the next part takes, and every part works with the ratings and sizes set for the aircraft.",
     ["inputs", "histories", "fault_sequences"],
     "every part and shipped system, operating point (idle, overload, failed propulsor, small and reversed flows), vector length, history of evaluations, faults and repeated setups, and every instant of a flight",
     "Tests compare single numbers at one operating point per part; balances across parts, at overload, with failed propulsors and along a flight are not looked at.",
     [A + "propulsion", A + "propulsion/systems", A + "energy_storage/battery.py", A + "thermal"],
     [("power relations", A + "propulsion/{motor,generator,splitter,turboshaft}.py, energy_storage/battery.py"), ("heat transfer and storage", A + "thermal/*.py"),
      ("wiring of the shipped systems", A + "propulsion/systems/*.py")],
     observe="inputs and outputs of every part of the solved model")

prop("P18", "Total derivatives of a model are the slopes of the results it reports",
     "When a model has been solved, the derivatives it reports of any result with respect to any of its inputs are the slopes of that result: analysing the same model again with the input slightly changed moves the "
     "result by the derivative times the change, wherever the result is smooth. This holds for single parts, assembled systems and whole missions, in every branch of operation and after any earlier use of the model.",
     ["inputs", "histories", "fault_sequences"],
     "every part, option set, vector length, operating point away from kinks, and history of evaluations, failed or interrupted derivative requests, overwritten guesses and repeated setups",
     "Tests check partial derivatives of components at one point, right after building them, and hardly ever the totals of assembled systems and missions.",
     [A], [("compute_partials / linearize", A + "**"), ("declared partials and constant partials", A + "**")],
     observe="total derivatives, and the results of neighbouring analyses of the same model")

# ---- properties that are pure functions of the input: listed for breadth, not claimed ----
prop("P21", "Atmosphere and airspeed models follow the standard atmosphere",
     "Density, pressure, temperature, speed of sound, dynamic pressure and airspeed conversions match the 1976 standard atmosphere with the given temperature increment at every altitude in range, continuously across layers.",
     ["inputs"], "every altitude, airspeed and temperature increment in range", "Tests sample a few altitudes.",
     [A + "atmospherics"], [("atmosphere formulas", A + "atmospherics/*.py")])
prop("P22", "Weight, cost, geometry and stability estimates follow their published formulas",
     "Every empirical estimate equals its published formula at every input, in the declared units.",
     ["inputs"], "every input in range", "Tests sample one aircraft each.",
     [A + "weights", A + "costs", A + "geometry", A + "stability"], [("estimate formulas", A + "weights/*.py, costs/*.py, geometry/*.py, stability/*.py")])
prop("P23", "Vector utility components compute what their specification says",
     "Sum, product, concatenate, split, select, extremum, interpolation and differentiation utilities return, for any declared set of equations, lengths, scalings and units, the mathematically specified result.",
     ["inputs", "programs"], "every declared equation set, shape and value", "Tests cover hand-picked shapes.",
     [A + "utilities"], [("utility components", A + "utilities/**")])
prop("P24", "Drag and lift models agree with their defining theory",
     "Parasite, induced and wave drag, maximum lift and wing meshes agree with their defining relations for every planform in range.",
     ["inputs"], "every planform and flight condition", "Tests sample a few planforms.",
     [A + "aerodynamics"], [("drag build-ups and meshes", A + "aerodynamics/**")])
prop("P26", "Hydrogen tank sizing holds the fuel and the pressure",
     "A sized tank's volume, wall and insulation carry the requested fuel mass at the design pressure for every geometry.",
     ["inputs"], "every tank geometry, pressure and fill", "Tests sample a few tanks.",
     [A + "energy_storage/hydrogen"], [("tank geometry and structure", A + "energy_storage/hydrogen/*.py")])
prop("P28", "Invalid options and malformed data are rejected with a clear error",
     "Unknown variables, missing values, inconsistent sizes and unsupported options raise an error at setup instead of producing numbers.",
     ["inputs", "configurations"], "every malformed option or dictionary", "Tests cover a few messages.",
     [A], [("option checks", A + "**")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
