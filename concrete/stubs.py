"""Stand-ins for numba so that the text of /repo runs under the plain CPython
interpreter (no compilation): decorators become the identity and typed lists
become lists.  Used by the concrete layer only."""
import sys
import types as _t


def _deco(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


class _Ty:
    def __getitem__(self, i):
        return self

    def __call__(self, x=None, *a, **k):
        import numpy as np
        if isinstance(x, (list, tuple)):
            return np.asarray(x, dtype=float)
        return x


class TList(list):
    @classmethod
    def empty_list(cls, *a, **k):
        return cls()


def jitclass(*a, **k):
    def wrap(c):
        c.class_type = _t.SimpleNamespace(instance_type=_Ty())
        return c
    if len(a) == 1 and isinstance(a[0], type):
        return wrap(a[0])
    return wrap


def install():
    # needs the real numba; only used by create_input for slope and aspect
    sys.modules["xrspatial"] = _t.ModuleType("xrspatial")
    nb = _t.ModuleType("numba")
    for n in ("njit", "jit", "vectorize", "guvectorize"):
        setattr(nb, n, _deco)
    nb.prange = range
    for n in ("float64", "float32", "int64", "int32", "intp", "boolean", "optional", "void"):
        setattr(nb, n, _Ty())
    nb.types = _t.ModuleType("numba.types")
    for n in ("float64", "int64", "intp", "ListType", "boolean", "unicode_type"):
        setattr(nb.types, n, _Ty())
    nb.typed = _t.ModuleType("numba.typed")
    nb.typed.List = TList
    ex = _t.ModuleType("numba.experimental")
    ex.jitclass = jitclass
    core = _t.ModuleType("numba.core")
    ext = _t.ModuleType("numba.core.extending")
    ext.overload = lambda *a, **k: (lambda f: f)
    ext.register_jitable = _deco
    nbn = _t.ModuleType("numba.np")
    ns = _t.ModuleType("numba.np.numpy_support")
    ns.type_can_asarray = lambda x: True
    nb.experimental, nb.core, nb.np = ex, core, nbn
    core.extending, nbn.numpy_support = ext, ns
    for n, m in (("numba", nb), ("numba.types", nb.types), ("numba.typed", nb.typed), ("numba.experimental", ex),
                 ("numba.core", core), ("numba.core.extending", ext), ("numba.np", nbn), ("numba.np.numpy_support", ns)):
        sys.modules[n] = m
