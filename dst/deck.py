"""One simulated process ("life") working with the jet-engine decks of a private copy of the package, on a simulated disk.

The copy holds the library's current source files and the raw deck tables thinned out to a few dozen points, so that the
decks really train (OpenMDAO's Kriging) within a fraction of a second.  File operations below the deck data go through
SimFiles, which counts them and injects errors, short writes, full disks and crashes."""
import builtins
import io
import os
import shutil
import sys

import numpy as np

from .core import REPO, rng_for
from .crash import LineFault, exc_type

DATA = os.path.join("openconcept", "propulsion", "empirical_data")
OUT = {"CFM56": ["thrust", "fuel_flow", "T4"], "N3": ["thrust", "fuel_flow", "surge_margin"], "N3Hybrid": ["thrust", "fuel_flow", "surge_margin"]}
DIR = {"CFM56": "cfm56", "N3": "n+3", "N3Hybrid": "n+3_hybrid"}


# ---------------------------------------------------------------------------------------------------------
# the private package
# ---------------------------------------------------------------------------------------------------------
def make_package(dst):
    src = os.path.join(REPO, "openconcept")

    def ignore(d, names):
        return [n for n in names if n in ("tests", "examples", "__pycache__", "_readme.txt") or n.endswith((".zip", ".png", ".pyc", ".pdf"))]

    shutil.copytree(src, os.path.join(dst, "openconcept"), ignore=ignore)


def raw(kind):
    """The shipped tables of a deck: {file: array}."""
    root = os.path.join(REPO, DATA, DIR[kind])
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            if f.endswith(".npy"):
                p = os.path.join(d, f)
                out[os.path.relpath(p, root)] = np.load(p)
    return out


def thinned(kind, seed, npts):
    """Tables with all but a few points blanked the way the shipped tables mark missing points, and the points that remain:
    rows of (inputs..., outputs...)."""
    rng = rng_for("deck", kind, seed)
    t = raw(kind)
    pts = []
    if kind == "CFM56":
        th, wf, t4 = t["cfm56thrust.npy"], t["cfm56wf.npy"], t["cfm56t4.npy"]
        alt, mach, thr = np.arange(35, -1, -5) * 1000.0, np.arange(8, -1, -1) * 0.1, np.arange(10, 1, -1) * 0.1
        ok = [i for i in np.ndindex(th.shape) if th[i] > 0 and not (mach[i[1]] > 0.45 and alt[i[0]] == 0)]
        keep = sorted(rng.sample(ok, npts))
        new = np.zeros_like(th)
        for i in keep:
            new[i] = th[i]
            pts.append([thr[i[2]], alt[i[0]], mach[i[1]], th[i], wf[i], t4[i]])
        t["cfm56thrust.npy"] = new
        return t, np.array(pts)
    levels = [("power_off", 0.0)] + ([("power_on_500kW", 500.0), ("power_on_1MW", 1000.0)] if kind == "N3Hybrid" else [])
    al, ma, tl, th = (t["power_off/%s.npy" % k] for k in ("alt", "mach", "throttle", "thrust"))
    per = npts // len(levels)
    for d, kw in levels:
        wf, sm = t[d + "/wf.npy"], t[d + "/SMW.npy"]
        ok = [i for i in np.ndindex(8, 7, 11) if wf[i] > 0]
        keep = sorted(rng.sample(ok, per))
        new = np.zeros_like(wf)
        for i in keep:
            new[i] = wf[i]
            pts.append([tl[i], al[i], ma[i]] + ([kw] if kind == "N3Hybrid" else []) + [th[i], wf[i], sm[i]])
        t[d + "/wf.npy"] = new
    return t, np.array(pts)


def install(pkg, kind, tables):
    for f, a in tables.items():
        np.save(os.path.join(pkg, DATA, DIR[kind], f), a)


def caches(pkg):
    out = []
    for k in sorted(DIR.values()):
        d = os.path.join(pkg, DATA, k)
        out += [os.path.join(d, f) for f in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, f)) and not f.endswith(".npy")]
    return out


# ---------------------------------------------------------------------------------------------------------
# file operations
# ---------------------------------------------------------------------------------------------------------
class SimFiles:
    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep
        self.n = {"open to read": 0, "open to write": 0, "read": 0, "write": 0, "rename": 0, "remove": 0}
        self.fault = None
        self.fired = False
        self.bytes = 0
        self.pause = lambda: None

    def arm(self, fault):
        self.fault, self.fired = fault, False
        for k in self.n:
            self.n[k] = 0
        self.bytes = 0

    def mine(self, path):
        try:
            return os.path.realpath(os.fspath(path)).startswith(self.root)
        except TypeError:
            return False

    def step(self, op, fileobj=None, data=None):
        """Called before an operation; may raise or end the process."""
        self.n[op] += 1
        f = self.fault
        if f is None or f["op"] != op:
            return
        if f["op"] == "write" and "bytes" in f:
            hit = self.bytes + len(data) > f["bytes"] and (not self.fired or f["sticky"])
        else:
            hit = self.n[op] == f["at"] or (f["sticky"] and self.fired)
        if data is not None:
            self.bytes += len(data)
        if not hit:
            return
        part = 0
        if op == "write" and f["kind"] != "pause":  # part of the data reaches the disk
            part = max(0, min(len(data), f["bytes"] - (self.bytes - len(data)))) if "bytes" in f else int(len(data) * f.get("part", 0.5))
            fileobj.write(bytes(data)[:part])
        self.fired = True
        if fileobj is not None:
            fileobj.flush()
        if f["kind"] == "crash":
            os._exit(77)
        if f["kind"] == "pause":  # another process runs to its end here
            self.fault = None
            self.pause()
            return
        raise OSError({"ENOSPC": 28, "EIO": 5, "EACCES": 13, "EMFILE": 24, "EROFS": 30}[f["kind"]], f["kind"])

    def install(self):
        real_open, real_rename, real_replace, real_remove = io.open, os.rename, os.replace, os.remove
        sim = self

        class File:
            def __init__(self, f):
                self._f = f

            def __getattr__(self, k):
                return getattr(self._f, k)

            def write(self, data):
                sim.step("write", self._f, data)
                return self._f.write(data)

            def read(self, *a):
                sim.step("read")
                return self._f.read(*a)

            def readinto(self, b):
                sim.step("read")
                return self._f.readinto(b)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self._f.close()

            def __iter__(self):
                return iter(self._f)

        def sim_open(file, mode="r", *a, **k):
            if isinstance(file, int) or not sim.mine(file) or str(file).endswith((".py", ".pyc")):
                return real_open(file, mode, *a, **k)
            sim.step("open to read" if mode.startswith("r") and "+" not in mode else "open to write")
            return File(real_open(file, mode, *a, **k))

        def wrap(fn, op):
            def g(src, *a, **k):
                if sim.mine(src):
                    sim.step(op)
                return fn(src, *a, **k)
            return g

        builtins.open = io.open = sim_open
        os.rename, os.replace = wrap(real_rename, "rename"), wrap(real_replace, "rename")
        os.remove = os.unlink = wrap(real_remove, "remove")


# ---------------------------------------------------------------------------------------------------------
# one process
# ---------------------------------------------------------------------------------------------------------
def conditions(kind, nn, code, box):
    """Seeded inputs inside the range of the data."""
    rng = rng_for("deck inputs", kind, nn, code)
    lo, hi = box
    x = np.array([[rng.uniform(lo[k], hi[k]) for k in range(len(lo))] for _ in range(nn)])
    return x


class Deck:
    def __init__(self, spec):
        import openmdao.api as om
        from openconcept import propulsion as P

        self.spec = spec
        k, nn = spec["kind"], spec["nn"]
        self.prob = p = om.Problem(reports=False)
        ins = ["throttle", "fltcond|h", "fltcond|M"] + (["hybrid_power"] if k == "N3Hybrid" else [])
        self.outs = list(OUT[k])
        if spec.get("rubber"):
            comp = P.RubberizedTurbofan(num_nodes=nn, engine=k, hydrogen=spec["hydrogen"])
            ins.append("ac|propulsion|engine|rating")
        else:
            comp = {"CFM56": P.CFM56, "N3": P.N3, "N3Hybrid": P.N3Hybrid}[k](num_nodes=nn)
        p.model.add_subsystem("deck", comp, promotes=["*"])
        self.ins = ins
        p.setup()
        self.units = {"throttle": None, "fltcond|h": "ft", "fltcond|M": None, "hybrid_power": "kW"}

    def run(self, x):
        p = self.prob
        for j, n in enumerate(self.ins):
            if n == "ac|propulsion|engine|rating":
                p.set_val(n, 30000.0, units="lbf")
            else:
                p.set_val(n, x[:, j], units=self.units[n])
        p.run_model()
        return {o: np.array(p.get_val(o)).ravel().copy() for o in self.outs}

    def slopes(self):
        return {"%s,%s" % k: np.array(v).copy() for k, v in self.prob.compute_totals(of=self.outs, wrt=self.ins).items()}


def enter(pkg):
    """Called first in the forked process: the package of this life is the private copy."""
    sys.path.insert(0, pkg)
    import openconcept

    assert os.path.realpath(openconcept.__file__).startswith(os.path.realpath(pkg)), openconcept.__file__
    import openconcept.propulsion  # noqa


def life(pkg, ops, boxes, report, pause=None):
    """Runs in its own process.  report(k, result) is called after each operation (so that a crash loses only what follows)."""
    enter(pkg)
    fs = SimFiles(os.path.join(pkg, DATA))
    fs.install()
    if pause:
        fs.pause = pause
    decks = {}
    for k, o in enumerate(ops):
        f = o.get("fault")
        line = f if f and f["op"] == "line" else None
        fs.arm(None if line else f)
        res = dict(fired=False)
        try:
            tr = LineFault(line["at"], line["kind"] if line["kind"] != "crash" else "KeyboardInterrupt") if line else None
            if tr:
                tr.__enter__()
            try:
                if o["op"] == "build":
                    decks.pop(o["d"], None)
                    decks[o["d"]] = Deck(o["spec"])
                elif o["d"] in decks:
                    s = decks[o["d"]].spec
                    if o["op"] == "run":
                        res["out"] = decks[o["d"]].run(conditions(s["kind"], s["nn"], o["code"], boxes[s["kind"]]))
                    else:
                        decks[o["d"]].run(conditions(s["kind"], s["nn"], o["code"], boxes[s["kind"]]))
                        res["out"] = decks[o["d"]].slopes()
                else:
                    res["skip"] = True
            finally:
                if tr:
                    tr.__exit__()
                    res["fired"] = bool(tr.fired)
                    res["lines"] = tr.n
        except BaseException as e:  # noqa
            res["err"] = "%s: %s" % (type(e).__name__, str(e)[:200])
        res["fired"] = res["fired"] or fs.fired
        if line and line["kind"] == "crash" and res["fired"]:
            os._exit(77)
        res["n"] = dict(fs.n)
        report(k, res)


def run_life(pkg, ops, boxes, meanwhile=None):
    """Forks a life; returns (list of results of completed operations, 'ended' or 'crashed').  meanwhile() is called when the
    life is paused in the middle of a file operation."""
    import pickle
    import struct
    from .core import _quiet, _read_exact, _write_all

    r, w = os.pipe()
    gr, gw = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.close(gw)
            _quiet()

            def pause():
                report(-3, None)
                os.read(gr, 1)

            def report(k, res):
                d = pickle.dumps((k, res), protocol=4)
                _write_all(w, struct.pack("<Q", len(d)) + d)

            try:
                life(pkg, ops, boxes, report, pause)
                report(-1, None)
            except BaseException as e:  # noqa
                import traceback

                report(-2, traceback.format_exc()[-3000:])
        finally:
            os._exit(0)
    os.close(w)
    os.close(gr)
    out, end = [], "crashed"
    try:
        while True:
            n = struct.unpack("<Q", _read_exact(r, 8))[0]
            k, res = pickle.loads(_read_exact(r, n))
            if k == -1:
                end = "ended"
                break
            if k == -2:
                end = res
                break
            if k == -3:
                if meanwhile:
                    meanwhile()
                os.write(gw, b"g")
                continue
            out.append(res)
    except EOFError:
        pass
    os.close(r)
    os.close(gw)
    os.waitpid(pid, 0)
    return out, end


# ---------------------------------------------------------------------------------------------------------
# what happens to the stored files between two lives
# ---------------------------------------------------------------------------------------------------------
def disk_event(pkg, ev, shelf):
    """Returns a description; shelf keeps older files (name -> bytes)."""
    files = caches(pkg)
    if ev["kind"] == "remove all":
        for f in files:
            os.remove(f)
        return "remove all"
    if not files:
        return None
    f = files[ev["a"] % len(files)]
    g = files[ev["b"] % len(files)]
    kind = ev["kind"]
    if kind == "remove":
        os.remove(f)
    elif kind == "truncate":
        n = os.path.getsize(f)
        with open(f, "r+b") as h:
            h.truncate(int(n * ev["x"]))
    elif kind == "zeros":  # length written, data lost
        n = os.path.getsize(f)
        with open(f, "r+b") as h:
            h.seek(int(n * ev["x"]))
            h.write(b"\0" * (n - int(n * ev["x"])))
    elif kind == "flip":
        n = os.path.getsize(f)
        if n:
            with open(f, "r+b") as h:
                p = int((n - 1) * ev["x"])
                h.seek(p)
                b = h.read(1)
                h.seek(p)
                h.write(bytes([b[0] ^ (1 << (ev["a"] % 8))]))
    elif kind == "foreign":
        if f == g:
            return None
        shutil.copyfile(g, f)
    elif kind == "swap":
        a, b = open(f, "rb").read(), open(g, "rb").read()
        open(f, "wb").write(b)
        open(g, "wb").write(a)
    elif kind == "garbage":
        open(f, "wb").write(bytes(rng_for("garbage", ev["a"]).getrandbits(8) for _ in range(300)))
    elif kind == "table":  # a raw table in the place of a stored training
        np.save(open(f, "wb"), np.ones((3, 3)))
    elif kind == "shelve":
        for q in files:
            shelf[q] = open(q, "rb").read()
        return "keep a copy"
    elif kind == "old":  # a backup of the stored files is put back
        if not shelf:
            return None
        q = sorted(shelf)[ev["a"] % len(shelf)]
        open(q, "wb").write(shelf[q])
        f = q
    elif kind == "drop":  # an entry is missing
        try:
            with np.load(f) as d:
                c = {k: d[k] for k in d.files}
        except Exception:
            return None
        c.pop(sorted(c)[ev["a"] % len(c)], None)
        with open(f, "wb") as h:
            np.savez_compressed(h, **c)
    return "%s %s" % (kind, os.path.basename(f))
