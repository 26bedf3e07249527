"""What one item of P15 answers in the environment of this process."""
import hashlib
import pickle
import random

import numpy as np

EXAMPLES = {
    "Caravan": ("openconcept.examples.Caravan", "run_caravan_analysis", {}),
    "TBM850": ("openconcept.examples.TBM850", "run_tbm_analysis", {}),
    "KingAir": ("openconcept.examples.KingAirC90GT", "run_kingair_analysis", {}),
    "ElectricSingle": ("openconcept.examples.ElectricSinglewithThermal", "run_electricsingle_analysis", {}),
    "HybridTwin": ("openconcept.examples.HybridTwin", "run_hybrid_twin_analysis", {}),
    "HybridTwinThermal": ("openconcept.examples.HybridTwin_thermal", "run_hybrid_twin_thermal_analysis", {}),
    "B738": ("openconcept.examples.B738", "run_738_analysis", {}),
    "B738sizing": ("openconcept.examples.B738_sizing", "run_738_sizing_analysis", {"num_nodes": 5}),
    "N3Refrig": ("openconcept.examples.N3_HybridSingleAisle_Refrig", "run_hybrid_sa_analysis", {"plots": False}),
    "minimal": ("openconcept.examples.minimal", "setup_problem", {}),
}


def state():
    a, b = random.getstate(), np.random.get_state()
    return hashlib.sha1(pickle.dumps((a, b[0], b[1].tolist(), b[2:]))).hexdigest()


def evaluate(it, env):
    """-> dict(kind, structure, declared, values, rng): rng tells whether the caller's random streams were left alone."""
    from . import pool
    from .checks import p07

    random.seed(env["rng"])
    np.random.seed(env["rng"] % 2**32)
    if env["drawn"]:
        np.random.rand(env["drawn"])
        [random.random() for _ in range(env["drawn"])]
    before = state()
    kind = it["kind"]
    st, de = {}, {}
    try:
        if kind == "example":
            import importlib

            mod, fn, kw = EXAMPLES[it["name"]]
            m = importlib.import_module(mod)
            p = getattr(m, fn)(**kw)
            if it["name"] in ("minimal", "TBM850"):
                p.run_model()
            vals = p07.answers(p)
            st = {k: v for k, v in p07.structure(p).items()}
        elif kind == "oas":
            from . import oas
            from .checks.p04 import Model

            S = oas.prepare(dict(it["plan"], workers=env["workers"], lag=env["lag"], sched=env["rng"], bar=env["bar"]))
            m = Model([it["plan"]["spec"]])
            m.setup()
            m.set(0, it["plan"]["code"])
            vals = {"%d.%s" % (i, k): v for i, d in enumerate(m.run()) for k, v in d.items()}
            vals.update({"d %d.%s" % (i, k): v for i, d in enumerate(m.slopes()) for k, v in d.items()})
            st = p07.structure(m.p)
            S.cleanup()
        else:
            plan = it["plan"]
            m = p07.KIND[kind](plan)
            m.setup()
            st, de = p07.structure(m.prob), p07.declared(m.prob)
            mid = state()
            if mid != before:
                return dict(rng="setting up the model changes the caller's random stream")
            vals = m.result(0, it["s"], it["what"])
    except Exception as e:
        return dict(err=type(e).__name__, msg=str(e)[:200], rng=None if state() == before else "a failing run changes the caller's random stream")
    after = state()
    return dict(structure=st, declared=de, values={k: np.asarray(v, dtype=float) for k, v in vals.items()}, rng=None if after == before else "running the model changes the caller's random stream")
