"""Total derivatives against the slopes of the results: the model itself is analysed again with an input slightly larger and smaller."""
import numpy as np


def read(prob, names):
    v = prob.model._outputs
    return {k: np.array(v._abs_get_val(k, flat=True), dtype=float).copy() for k in names}


def sources(prob):
    """Independent variables: source name -> name to ask derivatives for."""
    m = prob.model
    meta = m._var_allprocs_abs2meta["output"]
    out = {n: n for n in meta if "openmdao:indep_var" in meta[n]["tags"] and not n.startswith("_auto_ivc.")}
    for a, s in m._conn_global_abs_in2out.items():
        if s.startswith("_auto_ivc."):
            out.setdefault(s, m._resolver.abs2prom(a, "input"))
    return out


def leaf(k):
    return k.split(".")[-1].rstrip("0123456789")


def compare(prob, src, ask, u, ofs, steps, run, tol, floor):
    """Derivatives of all of `ofs` along the direction u of one independent variable.  run() -> bool (converged).
    Returns (list of (name, text), number of entries compared, entries skipped)."""
    v = prob.model._outputs
    x0 = np.array(v._abs_get_val(src, flat=True), dtype=float).copy()
    typ = np.max(np.abs(x0), initial=0.0) or 1.0
    d = u * np.maximum(np.abs(x0), 0.1 * typ)
    full = v.asarray(copy=True)
    J = prob.compute_totals(of=ofs, wrt=[ask], return_format="flat_dict")
    f0 = read(prob, ofs)
    fd = []
    try:
        for h in steps:
            f = []
            for s in (1.0, -1.0):
                v.set_val(full)
                v._abs_get_val(src, flat=True)[:] = x0 + s * h * d
                if not run():
                    return None, 0, 0
                f.append(read(prob, ofs))
            fd.append({k: (f[0][k] - f[1][k]) / (2 * h) for k in ofs})
            side = {k: ((f[0][k] - f0[k]) / h, (f0[k] - f[1][k]) / h) for k in ofs}
    finally:
        v.set_val(full)
        run()
    bad, n, skipped = [], 0, 0
    size = {}  # a quantity is small only against its namesakes elsewhere in the model
    for k in ofs:
        size[leaf(k)] = max(size.get(leaf(k), 0.0), float(np.max(np.abs(f0[k]), initial=0.0)))
    for k in ofs:
        g = np.asarray(J[k, ask], dtype=float).reshape(f0[k].size, x0.size) @ d
        a, b = fd[0][k], fd[1][k]
        if not np.isfinite(g).all() and all(np.isfinite(x).all() for x in (a, b, f0[k])):
            j = int(np.argmax(~np.isfinite(g)))
            if abs(a[j] - b[j]) <= 0.2 * tol * max(abs(a[j]), abs(b[j])) + 1e-12:
                bad.append((k, "d %s / d %s is not a number: slope %.8g (entry %d, value %.6g)" % (k, ask, b[j], j, f0[k][j])))
                continue
        if not (np.isfinite(g).all() and np.isfinite(a).all() and np.isfinite(b).all() and np.isfinite(f0[k]).all()):
            skipped += g.size
            continue
        scale = np.maximum(np.maximum(np.abs(g), np.abs(b)), 0.1 * max(np.max(np.abs(g), initial=0.0), np.max(np.abs(b), initial=0.0)))
        noise = floor * max(size[leaf(k)], min(1.0, floor * 100))
        smooth = np.abs(a - b) <= 0.2 * tol * scale + 0.3 * noise
        skipped += int(np.sum(~smooth))
        n += int(np.sum(smooth))
        e = np.where(smooth, np.abs(g - b) - tol * scale - noise, -1.0)
        if np.any(e > 0):  # at a corner of the result (the smaller of two powers, say, where both are equal) any slope between those of its two sides
            lo, hi = np.minimum(*side[k]), np.maximum(*side[k])
            corner = (hi - lo > 0.05 * scale + 2 * noise) & (g >= lo - tol * scale - noise) & (g <= hi + tol * scale + noise)
            skipped += int(np.sum(corner & (e > 0)))
            n -= int(np.sum(corner & (e > 0)))
            e[corner] = -1.0
        if np.any(e > 0):
            j = int(np.argmax(e))
            bad.append((k, "d %s / d %s along a direction: derivative %.8g, slope %.8g (entry %d, value %.6g)" % (k, ask, g[j], b[j], j, f0[k][j])))
    return bad, n, skipped
