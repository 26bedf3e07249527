"""P02: models in one process do not influence each other, and caller-owned data stay as given.

A run keeps several models alive in one process and interleaves building, setting up, evaluating, differentiating, failing and
discarding them; every answer is compared with the answer of that model alone in a pristine process."""
import gc
import json

import numpy as np

from .. import catalog
from ..compare import dict_differ
from ..core import Check, fork_call, rng_for
from ..crash import LineFault
from .p01 import attempt, derive_points, evaluate, fresh_answers, same


def slow_spec(spec):
    return "propulsion.systems" in spec["cls"] or "ExternalHX" in spec["cls"] or spec["cls"] in catalog.HEAVY or "VLM" in spec["cls"] or "ImplicitCompressibleDuct" in spec["cls"]


class P02(Check):
    id = "P02"
    runs = {"quick": 900, "thorough": 9000}
    min_runs = {"quick": 150, "thorough": 1000}
    wall = {"quick": 62, "thorough": 3000}
    rule = ("a run = 2-4 models in one process (same class with the same or different options and vector lengths, classes of one module, or unrelated), all "
            "constructor lists/dictionaries shared between them, and a seeded interleaving of build/setup/evaluate/differentiate/overwrite/fault/discard/"
            "rebuild; non-trivial = at least two models answered; distinct = different (classes, options, lengths, interleaving)")
    assumptions = ["the reference is the same model alone in a newly forked process"]
    real = ["openconcept components and groups (all importable classes)", "OpenMDAO 3.39", "openaerostruct for VLM groups", "stored Kriging training files"]
    stubs = ["interrupts, allocation failures: raised by a trace function at a seeded source line"]

    def warm(self):
        import openmdao.api  # noqa

        catalog.ensure_caches()
        self.specs = fork_call(catalog.all_specs)[1]
        catalog.discover()
        self.by_cls = {}
        self.by_mod = {}
        for s in self.specs:
            self.by_cls.setdefault(s["cls"], []).append(s)
            self.by_mod.setdefault(s["cls"].split(":")[0], []).append(s)
        self.classes = sorted(self.by_cls)

    def gen(self, rng, tier, idx):
        cls = rng.choice(self.classes)
        first = rng.choice(self.by_cls[cls])
        if idx < 2 * len(self.specs):
            first = self.specs[idx % len(self.specs)]
            cls = first["cls"]
        nm = rng.choice([2, 2, 3, 4])
        if slow_spec(first):
            nm = 2
        models = []
        for i in range(nm):
            if i == 0:
                s = first
            else:
                k = rng.random()
                s = rng.choice(self.by_cls[cls] if k < 0.6 else self.by_mod[first["cls"].split(":")[0]] if k < 0.85 else self.specs)
                if slow_spec(s) and not slow_spec(first):
                    s = first
                if i == 1 and len(self.specs) <= idx < 2 * len(self.specs):
                    s = catalog.sibling(rng, first)
                elif s["cls"] == cls and rng.random() < 0.5:
                    s = catalog.sibling(rng, s)
            nn = rng.choice([1, 2, 3, 5])
            if i and rng.random() < 0.3:
                nn = models[0]["nn"]
            npts = 2 if slow_spec(first) else rng.randint(2, 4)
            pts = [{"k": "new", "s": rng.getrandbits(32)}]
            for j in range(1, npts):
                pts.append({"k": rng.choice(["new", "one", "elem", "tiny", "swap", "inner"]), "b": rng.randrange(j), "i": rng.randrange(1000), "s": rng.getrandbits(32)})
            models.append({"spec": s, "nn": nn, "points": pts, "same_pts_as_first": bool(i and s == first and nn == models[0]["nn"] and rng.random() < 0.4)})
        ops = []
        alive = {}
        n = rng.randint(6, 9) if slow_spec(first) else rng.randint(10, 22)
        for _ in range(n):
            i = rng.randrange(nm)
            st = alive.get(i, 0)
            if st == 0:
                ops.append({"op": "build", "m": i})
                alive[i] = 1
            elif st == 1:
                ops.append({"op": "setup", "m": i})
                alive[i] = 2
            else:
                k = rng.random()
                p = rng.randrange(len(models[i]["points"]))
                if k < 0.55:
                    ops.append({"op": "eval", "m": i, "p": p, "what": rng.choice(["run", "part", "tot"])})
                elif k < 0.75:
                    ops.append({"op": "again", "m": i, "what": rng.choice(["part", "tot"])})
                elif k < 0.80:
                    ops.append({"op": "discard", "m": i})
                    alive[i] = 0
                elif k < 0.88:
                    ops.append({"op": "crash", "m": i, "p": p, "at": rng.random(), "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "AnalysisError"])})
                elif k < 0.94:
                    ops.append({"op": "scribble", "m": i, "s": rng.getrandbits(32)})
                else:
                    ops.append({"op": "buildcrash", "m": i, "at": rng.random(), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
        for i in range(nm):
            if alive.get(i) == 2:
                ops.append({"op": "eval", "m": i, "p": 0, "what": "tot"})
        return {"models": models, "ops": ops}

    def run(self, plan, log):
        infos = []
        for i, pm in enumerate(plan["models"]):
            r = fork_call(catalog.build_spec, dict(pm["spec"]), pm["nn"])
            if r[0] != "ok":
                log.count("probe:unbuildable")
                infos.append(None)
                continue
            spec, meta, outs = r[1]
            resid = spec["mode"] == "newton" and slow_spec(spec)
            if resid:
                spec["mode"] = "explicit"
            src = plan["models"][0] if pm["same_pts_as_first"] else pm
            infos.append((spec, meta, derive_points(src, spec, meta), resid, src))
        # every reference is computed before the live models exist
        cur, keys = {}, [set() for _ in infos]
        for o in plan["ops"]:
            i = o["m"]
            if infos[i] is None:
                continue
            if o["op"] == "eval":
                cur[i] = o["p"] % len(infos[i][2])
                keys[i].add((cur[i], "resid" if infos[i][3] else o["what"]))
            elif o["op"] == "again" and i in cur and not infos[i][3]:
                keys[i].add((cur[i], o["what"]))
        refs = [fresh_answers(x[0], [((p, w), x[2][p], w, x[4]["points"][p]["s"]) for p, w in sorted(keys[i])]) if x and keys[i] else {} for i, x in enumerate(infos)]

        def ref(i, p, what):
            return refs[i][p, what]

        catalog.OWNED = {}
        live, state, cur, got = {}, {}, {}, {}
        compared, who = 0, set()
        hist = []
        for n, o in enumerate(plan["ops"]):
            i, op = o["m"], o["op"]
            if infos[i] is None:
                continue
            spec, meta, pts, resid, src = infos[i]
            name = spec["cls"].split(":")[1]
            st = state.get(i, 0)
            if op == "build":
                live[i] = catalog.Model(spec)
                state[i] = 1
                got.pop(i, None)
            elif op == "setup" and st >= 1:
                if st == 1:
                    live[i].setup()
                state[i] = 2
            elif op == "discard":
                live.pop(i, None)
                state[i] = 0
                got.pop(i, None)
                gc.collect()
            elif op == "buildcrash":
                # another model of the same kind is being built when the fault strikes; it is thrown away
                def build():
                    catalog.Model(spec).setup()
                c = fork_call(self.count, build)
                if c[0] == "ok" and c[1] > 0:
                    with LineFault(1 + int(o["at"] * c[1]) % c[1], o["exc"]) as lf:
                        try:
                            build()
                        except BaseException:
                            pass
                    if lf.fired:
                        log.count("fault:%s while building" % o["exc"])
                gc.collect()
            elif st < 2:
                continue
            elif op == "scribble":
                if live[i].mode == "explicit":
                    live[i].scribble(rng_for(o["s"]))
                got.pop(i, None)
                log.count("fault:overwritten outputs")
            elif op == "crash":
                p = o["p"] % len(pts)
                m = live[i]
                if m.mode == "newton":
                    m.restore_guesses()

                def ev():
                    evaluate(m, pts[p], "resid" if resid else "tot", src["points"][p]["s"])
                c = fork_call(self.count, ev)
                if c[0] == "ok" and c[1] > 0:
                    with LineFault(1 + int(o["at"] * c[1]) % c[1], o["exc"]) as lf:
                        try:
                            ev()
                        except BaseException:
                            pass
                    if lf.fired:
                        log.count("fault:%s at a source line" % o["exc"])
                got.pop(i, None)
            elif op in ("eval", "again"):
                if op == "eval":
                    p = cur[i] = o["p"] % len(pts)
                    what = "resid" if resid else o["what"]
                    if live[i].mode == "newton":
                        live[i].restore_guesses()
                    g = got[i] = evaluate(live[i], pts[p], what, src["points"][p]["s"])
                else:
                    if resid or i not in got or got[i][0] == "exc":
                        continue
                    p, what, m = cur[i], o["what"], live[i]

                    def f():
                        out = m.get_outputs()
                        out.update(m.totals() if what == "tot" else m.partials())
                        return out
                    g = attempt(f)
                d = same(g, ref(i, p, what))
                compared += 1
                who.add(i)
                log.ev(n, op, what, i, name, g[0], "same" if not d else "DIFFERENT %s" % (d,))
                if d:
                    return [dict(kind="another model changes the answer", where=name,
                                 msg="%s (%s, n=%s): %s is %s after %s" % (name, json.dumps(spec["kw"]), spec["nn"], d[0], d[1], " ".join(hist[-8:])))]
            hist.append("%s%d" % (op, i))
            ch = catalog.owned_changed()
            if ch:
                return [dict(kind="caller data modified", where=name, msg="%s (%s): after %s, %s" % (name, json.dumps(spec["kw"]), op, ch[0]))]
        if len(who) >= 2:
            log.shape(([(x[0]["cls"], x[0]["kw"], x[0]["nn"], x[0].get("var")) for x in infos if x], hist))
        log.count("answers compared", compared)
        return []

    @staticmethod
    def count(fn):
        with LineFault(None) as lf:
            try:
                fn()
            except BaseException:
                pass
        return lf.n

    def shrink(self, plan):
        ops = plan["ops"]
        n = len(ops)
        step = n // 2
        while step >= 1:
            for i in range(0, n, step):
                yield dict(plan, ops=ops[:i] + ops[i + step:])
            step //= 2
        for i, o in enumerate(ops):
            if o["op"] == "eval" and o["what"] != "run":
                yield dict(plan, ops=ops[:i] + [dict(o, what="run")] + ops[i + 1:])


CHECK = P02()
