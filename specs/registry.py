"""All contracts, by name and by property."""
import importlib
import inspect

from .base import Spec

MODULES = ["grid_specs", "props_specs", "water_specs", "surface_specs", "energy_specs", "compaction_specs", "terrain_specs", "forcing_specs", "config_specs", "core_specs", "output_specs", "initial_specs", "remesh_specs", "radiation_specs"]


def _load():
    out = {}
    for m in MODULES:
        mod = importlib.import_module(f"specs.{m}")
        for nm, c in inspect.getmembers(mod, inspect.isclass):
            if issubclass(c, Spec) and c is not Spec and c.__module__ == mod.__name__ and (c.qual or c.bounded_only) and not nm.startswith("_"):
                out[nm] = c
    return out


SPECS = _load()


def get(name):
    return SPECS[name]()


def for_property(pid):
    return [c() for nm, c in SPECS.items() if c.prop == pid or (isinstance(c.prop, tuple) and pid in c.prop)]
