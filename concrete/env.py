"""Imports /repo's modules (fresh per set of constants) and runs its functions."""
import contextlib
import importlib
import io
import os
import signal
import sys

import numpy as np

REPO = os.environ.get("PYVC_REPO", "/repo")
sys.dont_write_bytecode = True
from . import stubs  # noqa: E402


class Timeout(Exception):
    pass


@contextlib.contextmanager
def time_limit(s):
    def h(sig, fr):
        raise Timeout("no answer")
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, s)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Args:
    def __init__(self, d):
        self.__dict__.update(d)


class Driver:
    def __init__(self, f, g):
        self.f, self.g = f, g

    def __call__(self, *args):
        return self.f(*([self.g] if self.g is not None else []), *args)

    def attr(self, name, value):
        setattr(self.g, name, value)

    def field(self, i, name, value):
        setattr(self.g.grid[int(i)], name, value)


class Env:
    """one loaded copy of the code with the given constants / configuration"""

    def __init__(self, consts=None, config=None, argv=()):
        stubs.install()
        for m in [m for m in sys.modules if m == "cosipy" or m.startswith("cosipy.") or m == "COSIPY"]:
            del sys.modules[m]
        os.environ["COSIPY_DIR"] = REPO
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        sys.argv = ["COSIPY.py"] + list(argv)
        with contextlib.redirect_stdout(io.StringIO()):
            self.config = importlib.import_module("cosipy.config").Config
            for k, v in (config or {}).items():
                setattr(self.config, k, v)
            self.constants = importlib.import_module("cosipy.constants").Constants
            for k, v in (consts or {}).items():
                setattr(self.constants, k, v)
        self.mods = {}

    def const_dict(self):
        return {k: v for k, v in vars(self.constants).items() if not k.startswith("_")} | {
            k: getattr(self.constants, k) for k in dir(self.constants) if not k.startswith("_")}

    def mod(self, name):
        if name not in self.mods:
            with contextlib.redirect_stdout(io.StringIO()):
                self.mods[name] = importlib.import_module(name)
        return self.mods[name]

    def grid(self, layers, props):
        G = self.mod("cosipy.cpkernel.grid").Grid
        a = np.array
        g = G(a([l[0] for l in layers], float), a([300.0 for l in layers]), a([l[1] for l in layers], float),
              a([l[2] for l in layers], float), a([l[3] for l in layers], float), float(props[0]), float(props[1]), float(props[2]))
        for nd, l in zip(g.grid, layers):
            nd.height, nd.temperature, nd.liquid_water_content, nd.ice_fraction, nd.refreeze = [float(x) for x in l]
        return g

    @staticmethod
    def layers(g):
        return [[float(np.asarray(x).item()) for x in (nd.height, nd.temperature, nd.liquid_water_content, nd.ice_fraction, nd.refreeze)]
                for nd in g.grid]

    @staticmethod
    def props(g):
        return [float(g.new_snow_height), float(g.new_snow_timestamp), float(g.old_snow_timestamp)]

    def function(self, spec):
        m = self.mod(spec.module)
        if "." in spec.qual:
            c, f = spec.qual.split(".")
            return getattr(getattr(m, c), f)
        return getattr(m, spec.qual)

    @staticmethod
    def drive(spec, f, g, inp):
        return spec.drive(Driver(f, g), Args(inp["args"]))

    def default_invoke(self, spec, inp):
        """-> (result, exception kind, new layers, number_nodes, new props)"""
        f = self.function(spec)
        args = [inp["args"][nm] for nm, _ in spec.args]
        args = [np.array(x, float) if isinstance(x, list) and k != "list" else np.float64(x) if k == "np" else x
                for x, (_, k) in zip(args, spec.args)]
        g = None
        if spec.has_grid:
            g = self.grid(inp["layers"], inp["props"])
            args = [g] + args
        if getattr(spec, "drive", None):
            args = [spec, f, g, inp]
            f = self.drive
        exc = res = None
        out = io.StringIO()
        with contextlib.redirect_stdout(out), np.errstate(all="ignore"):
            try:
                with time_limit(10):
                    res = f(*args)
            except Timeout:
                exc = "Timeout"
            except Exception as e:  # noqa: BLE001
                exc = type(e).__name__
                self.last_exc = repr(e)
        if g is None:
            return res, exc, None, None, None
        return res, exc, self.layers(g), int(g.number_nodes), self.props(g)
