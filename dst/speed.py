"""Pure speed-ups of third-party code (numbers are bit-identical): memoised spline interpolation of OpenMDAO's structured meta-models."""


def memo_splines(limit=4000):
    from openmdao.components.interp_util.interp_scipy import InterpScipy

    if getattr(InterpScipy, "_dst_memo", None) is not None:
        return
    memo = InterpScipy._dst_memo = {}
    orig = InterpScipy._evaluate_splines

    def evaluate(self, data_values, xi, ki, compute_gradients=True):
        if not compute_gradients:
            return orig(self, data_values, xi, ki, compute_gradients)
        key = (data_values.tobytes(), data_values.shape, tuple(g.tobytes() for g in self.grid), xi.tobytes(), xi.shape, tuple(ki))
        hit = memo.get(key)
        if hit is None:
            res = orig(self, data_values, xi, ki, True)
            if len(memo) >= limit:
                memo.clear()
            memo[key] = (res.copy(), self._d_dx.copy())
            return res
        self._d_dx = hit[1].copy()
        return hit[0].copy()

    InterpScipy._evaluate_splines = evaluate


def cheap_singular_message():
    """OpenMDAO runs a dense SVD only to word its "Jacobian is not full rank" error; the simulator raises it without the list of rows."""
    from openmdao.solvers.linear import direct

    direct.format_singular_error = lambda system, matrix: "Jacobian in '%s' is not full rank." % system.pathname


def bounds_ls():
    """OpenMDAO's bounds-enforcing line search without its two residual evaluations (they only feed a printed norm)."""
    from openmdao.api import BoundsEnforceLS

    class QuietBounds(BoundsEnforceLS):
        def _solve(self):
            system = self._system()
            system._outputs += system._doutputs
            if system._has_bounds:
                self._enforce_bounds(step=system._doutputs, alpha=1.0)

    return QuietBounds()
