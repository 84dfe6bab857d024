"""Fault plans: JSON lists of faults, installed into a world."""
import numpy as np

from opts import decode
from world import EXCEPTIONS

VALUES = {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}


def number(value):
    return VALUES.get(value, value)


def make_exception(name):
    cls = EXCEPTIONS[name]
    if name == "UnicodeError":
        return cls("injected")
    return cls("injected by the simulator")


def install(world, faults):
    for fault in faults or ():
        do = fault["do"]
        kind, nth = fault["kind"], fault["nth"]
        if do == "raise":
            exc = make_exception(fault["exc"])

            def act(world, event, exc=exc, kind=kind):
                world.raise_injected(exc, f"raise in {kind}")

            world.add_fault(kind, nth, act)
        elif do == "stall":
            def act(world, event, seconds=fault["seconds"], kind=kind):
                world.note("clock jump back" if seconds < 0 else "stall")
                world.advance(seconds)

            world.add_fault(kind, nth, act)
        elif do == "value":
            def act(world, event, value, new=number(fault["value"]), kind=kind):
                world.note(f"{fault_label(new)} returned by {kind}")
                return corrupt(value, new)

            world.add_fault(kind + ".value", nth, act)
        elif do == "scale":
            def act(world, event, value, by=fault["value"], kind=kind):
                world.note(f"value scaled by {by:g} returned by {kind}")
                return scaled(value, by)

            world.add_fault(kind + ".value", nth, act)
        else:
            raise ValueError(do)


def scaled(value, by):
    if isinstance(value, (list, tuple)):
        return [scaled(v, by) for v in value]
    return by * value


def fault_label(new):
    if new != new:
        return "NaN"
    if abs(new) == float("inf"):
        return "infinity"
    return "huge value"


def corrupt(value, new):
    if isinstance(value, (list, tuple)):
        return [corrupt(v, new) for v in value]
    if isinstance(value, np.ndarray) and value.ndim:
        bad = value.copy()
        bad.flat[0] = new
        return bad
    return type(value)(new) if isinstance(value, np.floating) else float(new)


__all__ = ["install", "make_exception", "number", "decode"]
