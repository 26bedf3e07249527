"""Developer tool: wall time per run of a check.  usage: prof.py <id> <first> <n>"""
import os, sys, json
sys.path.insert(0, "/verif")
import tempfile
os.environ.setdefault("DST_SCRATCH", tempfile.mkdtemp(prefix="dst-"))
from dst import core, main
c = main.load(sys.argv[1]); core.warm(c); c.tier = "quick"
a, n = int(sys.argv[2]), int(sys.argv[3])
pool = core.Pool(8, 100)
res = {}; i = a; plans = {}
while i < a + n or pool.live:
    while i < a + n and len(pool.live) < 8:
        plans[i] = c.gen(core.rng_for(c.id, 1, "quick", i), "quick", i)
        pool.submit(i, core.execute, c, plans[i]); i += 1
    for k, r in pool.poll():
        res[k] = r
rows = []
for k, r in res.items():
    w = r[1]["wall"] if r[0] == "ok" else 999
    rows.append((w, k, r[0], str(plans[k].get("spec", plans[k]))[:150], str(r[1:])[:200] if r[0] != "ok" else "", [v["kind"] + v["msg"][:900] for v in r[1]["violations"]] if r[0] == "ok" else ""))
rows.sort(key=lambda r:(bool(r[5]),r[0]),reverse=True)
for r in rows[:int(sys.argv[4]) if len(sys.argv) > 4 else 15]:
    print("%.1f %s" % (r[0], r[1:]))
print("total", sum(r[0] for r in rows if r[0] < 999), "violations", sum(bool(r[5]) for r in rows))
import shutil; shutil.rmtree(os.environ["DST_SCRATCH"])
