"""P06: engine-deck answers do not depend on the state of the on-disk cache."""
import os
import shutil

import numpy as np

from .. import deck
from ..compare import differ, dict_differ
from ..core import Check, fork_call

KINDS = ["CFM56", "N3", "N3Hybrid"]


def reference(pkg, spec, codes, boxes, pts):
    """One deck alone on an empty disk: {code: (values, slopes)} and how well it reproduces its own table."""
    deck.enter(pkg)
    d = deck.Deck(spec)
    out = {}
    for c in codes:
        v = d.run(deck.conditions(spec["kind"], spec["nn"], c, boxes[spec["kind"]]))
        out[c] = (v, d.slopes())
    worst = None
    if not spec.get("rubber"):
        nin = pts.shape[1] - 3
        nn = spec["nn"]
        for a in range(0, len(pts) - nn + 1, nn):
            v = d.run(pts[a:a + nn, :nin])
            for j, o in enumerate(d.outs):
                col = pts[:, nin + j]
                e = np.max(np.abs(v[o] - pts[a:a + nn, nin + j])) / (np.max(np.abs(col)) + 1e-30)
                if worst is None or e > worst[0]:
                    worst = (float(e), o, pts[a].tolist())
    return out, worst


class P06(Check):
    id = "P06"
    runs = {"quick": 430, "thorough": 20000}
    min_runs = {"quick": 100, "thorough": 2000}
    wall = {"quick": 62, "thorough": 3000}
    rule = ("a run = one to four consecutive processes (some overlapping) that build and evaluate engine decks over one simulated disk, with seeded file-system errors, crashes in the middle of writes, exceptions at source lines, and events "
            "between processes that remove, tear, flip, exchange, replace or outdate the stored training files; every answer given must be that of a deck alone on an empty disk; distinct = different (operations, faults, events)")
    real = ["CFM56, N3, N3Hybrid, RubberizedTurbofan (private copy of the current source)", "OpenMDAO 3.39 Kriging training and its cache", "numpy, zipfile"]
    stubs = ["file system calls below the deck data (counted, delayed, failing)", "raw deck tables thinned to 9-24 points so that training takes a fraction of a second"]
    assumptions = ["an error is an acceptable answer when a fault was injected or the stored files are damaged; with absent or intact files the deck must answer"]

    def warm(self):
        import matplotlib  # noqa
        import numpy  # noqa
        import openmdao.api  # noqa
        import openaerostruct  # noqa
        import scipy.interpolate  # noqa
        import scipy.optimize  # noqa

    def fault(self, rng):
        r = rng.random()
        kind = rng.choice(["ENOSPC", "EIO", "EACCES", "crash", "crash", "pause"])
        sticky = rng.random() < 0.5
        if r < 0.4:
            return dict(op="write", bytes=int(10 ** rng.uniform(0, 3.9)), kind=rng.choice(["ENOSPC", "EIO", "crash", "crash", "pause"]), sticky=sticky)
        if r < 0.55:
            return dict(op="write", at=rng.randint(1, 420), part=rng.random(), kind=rng.choice(["ENOSPC", "EIO", "crash", "pause"]), sticky=sticky)
        if r < 0.65:
            return dict(op="open to write", at=rng.randint(1, 3), kind=rng.choice(["EACCES", "ENOSPC", "EROFS", "EMFILE", "crash", "pause"]), sticky=sticky)
        if r < 0.73:
            return dict(op="open to read", at=rng.randint(1, 6), kind=rng.choice(["EACCES", "EIO", "EMFILE", "crash", "pause"]), sticky=sticky)
        if r < 0.83:
            return dict(op="read", at=int(10 ** rng.uniform(0, 2.4)), kind=rng.choice(["EIO", "crash", "pause"]), sticky=sticky)
        return dict(op="line", at=int(10 ** rng.uniform(0, 3.5)), kind=rng.choice(["KeyboardInterrupt", "MemoryError", "OSError", "crash"]), sticky=False)

    def spec(self, rng, kinds):
        k = rng.choice(kinds)
        s = dict(kind=k, nn=rng.choice([1, 1, 2, 3, 5]))
        if k != "N3Hybrid" and rng.random() < 0.3:
            s.update(rubber=True, hydrogen=rng.random() < 0.5)
        return s

    def life(self, rng, kinds, faulty):
        ops, n = [], 0
        for _ in range(rng.choice([1, 1, 2, 3])):
            d = n if rng.random() < 0.8 else rng.randrange(n + 1)
            n = max(n, d + 1)
            ops.append(dict(op="build", d=d, spec=self.spec(rng, kinds)))
            for _ in range(rng.choice([1, 1, 2])):
                ops.append(dict(op=rng.choice(["run", "run", "slopes"]), d=rng.randrange(n) if rng.random() < 0.3 else d, code=rng.randrange(3)))
        if faulty:
            for o in ops:
                if rng.random() < 0.45:
                    o["fault"] = self.fault(rng)
        return dict(ops=ops)

    def gen(self, rng, tier, idx):
        kinds = rng.sample(KINDS, rng.choice([1, 1, 2, 3]))
        versions = [dict((k, [rng.getrandbits(32), rng.choice([9, 12, 15, 18, 24])]) for k in KINDS) for _ in range(2)]
        if rng.random() < 0.5:  # same number of points, other data
            for k in KINDS:
                versions[1][k][1] = versions[0][k][1]
        lives = []
        for j in range(rng.choice([1, 2, 2, 3, 3, 4])):
            li = self.life(rng, kinds, rng.random() < 0.6)
            li["version"] = 0 if rng.random() < 0.75 else 1
            li["before"] = []
            if j:
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    kind = rng.choice(["remove", "truncate", "truncate", "zeros", "flip", "flip", "foreign", "foreign", "swap", "garbage", "table", "shelve", "old", "drop", "remove all"])
                    li["before"].append(dict(kind=kind, a=rng.getrandbits(16), b=rng.getrandbits(16), x=rng.choice([0.0, 0.02, 0.5, 0.9, 0.999, rng.random(), rng.random()])))
            if any(o.get("fault", {}).get("kind") == "pause" for o in li["ops"]):
                li["meanwhile"] = self.life(rng, kinds, rng.random() < 0.2)
            lives.append(li)
        return dict(versions=versions, lives=lives, final=[self.spec(rng, kinds), rng.randrange(3)])

    def run(self, plan, log):
        here = os.getcwd()
        tables = [{k: deck.thinned(k, *v[k]) for k in KINDS} for v in plan["versions"]]
        boxes = {}
        for k in KINDS:
            p = np.vstack([t[k][1][:, :-3] for t in tables])
            boxes[k] = (p.min(0), p.max(0))
        pkg = os.path.join(here, "pkg")
        os.makedirs(pkg)
        deck.make_package(pkg)
        final = dict(ops=[dict(op="build", d=0, spec=plan["final"][0]), dict(op="run", d=0, code=plan["final"][1]), dict(op="slopes", d=0, code=plan["final"][1])],
                     version=0, before=[dict(kind="remove all", a=0, b=0, x=0)])
        lives = plan["lives"] + [final]
        # what every deck answers alone on an empty disk
        need = {}
        for li in lives:
            for part in [li] + ([li["meanwhile"]] if "meanwhile" in li else []):
                cur = {}
                for o in part["ops"]:
                    if o["op"] == "build":
                        cur[o["d"]] = o["spec"]
                    elif o["d"] in cur:
                        need.setdefault(repr((li["version"], sorted(cur[o["d"]].items()))), (li["version"], cur[o["d"]], set()))[2].add(o["code"])
        refs = {}
        rp = os.path.join(here, "ref")
        for key in sorted(need):
            v, spec, codes = need[key]
            if os.path.exists(rp):
                shutil.rmtree(rp)
            os.makedirs(rp)
            deck.make_package(rp)
            deck.install(rp, spec["kind"], tables[v][spec["kind"]][0])
            r = fork_call(reference, rp, spec, sorted(codes), boxes, tables[v][spec["kind"]][1])
            if r[0] != "ok":
                if "optimization failed" in str(r[2]):
                    log.count("probe:the data cannot be trained")
                    refs[key] = None
                    continue
                return [dict(kind="a deck alone on an empty disk fails", where=spec["kind"], msg=str(r[1:3]))]
            refs[key], worst = r[1]
            log.count("decks trained for reference")
            if worst and worst[0] > self.table_tol:
                return [dict(kind="a deck does not reproduce its table", where=spec["kind"], msg="%s off by %.2g of its scale at %s" % (worst[1], worst[0], worst[2]))]
        shelf, clean, made = {}, True, None
        hist = []
        for j, li in enumerate(lives):
            for ev in li["before"]:
                d = deck.disk_event(pkg, ev, shelf)
                if d is None:
                    continue
                hist.append(d)
                log.count("fault:%s" % ev["kind"])
                log.ev(j, d)
                if ev["kind"] == "remove all":
                    clean, made = True, None
                elif ev["kind"] not in ("shelve", "remove"):
                    clean = False
            if made is not None and made != li["version"]:
                log.count("fault:stored files of other data")
                clean = False
            made = li["version"]
            for k in KINDS:
                deck.install(pkg, k, tables[li["version"]][k][0])
            other = []

            def meanwhile():
                if "meanwhile" in li and not other:
                    log.count("fault:another process works on the same files meanwhile")
                    other.append(deck.run_life(pkg, li["meanwhile"]["ops"], boxes))

            res, end = deck.run_life(pkg, li["ops"], boxes, meanwhile)
            if end == "crashed":
                clean = False
                log.count("fault:crash")
            elif end != "ended":
                return [dict(kind="a process cannot work with the decks", where="start", msg=end[-600:])]
            if other:
                clean = False
            for part, rs, tag in [(li, res, "")] + [(li["meanwhile"], r, " (meanwhile)") for r, _ in other]:
                cur = {}
                for o, r in zip(part["ops"], rs):
                    if o["op"] == "build":
                        cur[o["d"]] = o["spec"]
                    if r["fired"]:
                        log.count("fault:%s on %s" % (o["fault"]["kind"], o["fault"]["op"]))
                        clean = False
                    if o["op"] == "build" and "err" in r:
                        cur.pop(o["d"], None)
                    key = repr((li["version"], sorted(cur[o["d"]].items()))) if o["d"] in cur else None
                    name = "%s(%s)" % (cur[o["d"]]["kind"], cur[o["d"]]["nn"]) if o["d"] in cur else "-"
                    hist.append("p%d%s %s %s%s%s" % (j, tag, o["op"], name, " fault" if r["fired"] else "", " error" if "err" in r else ""))
                    log.ev(hist[-1], {k: repr(v.tolist()) for k, v in sorted(r.get("out", {}).items())} if len(log.events) < 60 else "")
                    if "err" in r:
                        if clean and not r["fired"]:
                            if key and refs.get(key, 1) is None:
                                continue
                            return [dict(kind="a deck fails although the stored files are intact or absent", where=o["op"], msg="%s [%s]" % (r["err"], "; ".join(hist[-10:])))]
                        log.count("probe:answered with an error")
                        continue
                    if "out" not in r or refs.get(key) is None:
                        continue
                    want = refs[key][o["code"]][0 if o["op"] == "run" else 1]
                    d = dict_differ(r["out"], want, 1e-6 if o["op"] == "run" else 1e-5)
                    log.count("answers compared")
                    if d:
                        return [dict(kind="wrong numbers from an engine deck", where=cur[o["d"]]["kind"], msg="%s is %s [%s]" % (d[0], d[1], "; ".join(hist[-10:])))]
        log.shape(hist)
        return []

    table_tol = 0.15

    def shrink(self, plan):
        L = plan["lives"]
        for i in range(len(L)):
            yield dict(plan, lives=L[:i] + L[i + 1:])
        for i, li in enumerate(L):
            for k in range(len(li["before"])):
                yield dict(plan, lives=L[:i] + [dict(li, before=li["before"][:k] + li["before"][k + 1:])] + L[i + 1:])
            for k in range(len(li["ops"])):
                yield dict(plan, lives=L[:i] + [dict(li, ops=li["ops"][:k] + li["ops"][k + 1:])] + L[i + 1:])
            for k, o in enumerate(li["ops"]):
                if "fault" in o:
                    yield dict(plan, lives=L[:i] + [dict(li, ops=li["ops"][:k] + [{a: b for a, b in o.items() if a != "fault"}] + li["ops"][k + 1:])] + L[i + 1:])


CHECK = P06()
