"""Seam for faults inside the library's Python code: a trace function counts the executed source lines of the package and
can raise an exception at a chosen one (an interrupt, an allocation failure, an analysis error at an arbitrary point)."""
import os
import sys


class Injected(Exception):
    pass


def exc_type(name):
    if name == "KeyboardInterrupt":
        return KeyboardInterrupt
    if name == "MemoryError":
        return MemoryError
    if name == "AnalysisError":
        from openmdao.api import AnalysisError

        return AnalysisError
    if name == "OSError":
        return OSError
    if name == "ValueError":
        return ValueError
    if name == "LinAlgError":
        from numpy.linalg import LinAlgError

        return LinAlgError
    if name == "FloatingPointError":
        return FloatingPointError
    return Injected


class LineFault:
    """with LineFault(at, excname) as f: ...   at=None only counts (f.n)."""

    def __init__(self, at=None, exc="KeyboardInterrupt", only=None):
        import openconcept

        self.root = os.path.dirname(os.path.abspath(openconcept.__file__)) + os.sep
        self.at, self.exc, self.n, self.fired = at, exc, 0, None
        self.only = only
        self.cache = {}

    def _want(self, code):
        w = self.cache.get(code)
        if w is None:
            fn = code.co_filename
            w = fn.startswith(self.root) and (os.sep + "tests" + os.sep) not in fn
            if w and self.only:
                w = any(o in fn for o in self.only)
            self.cache[code] = w
        return w

    def _glob(self, frame, event, arg):
        if self._want(frame.f_code):
            return self._loc
        return None

    def _loc(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.at is not None and self.n == self.at and self.fired is None:
                self.fired = "%s:%s" % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                raise exc_type(self.exc)("injected fault")
        return self._loc

    def __enter__(self):
        sys.settrace(self._glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False
