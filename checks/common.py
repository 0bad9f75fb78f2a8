"""Helpers shared by the checks."""
import importlib


def patch(e, obj, name, value):
    """replace an attribute for the duration of one run of the harness"""
    missing = object()
    old = obj.__dict__.get(name, missing) if hasattr(obj, "__dict__") else getattr(obj, name, missing)
    setattr(obj, name, value)

    def undo():
        if old is missing:
            delattr(obj, name)
        else:
            setattr(obj, name, old)
    e.on_cleanup(undo)


def use_rng(e):
    """let bilby draw its random numbers from the harness (each draw is a fresh symbolic input)"""
    m = importlib.import_module("bilby.core.utils.random")
    patch(e, m, "rng", e.rng)
    return e.rng
