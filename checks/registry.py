"""property id -> function(report, tier)"""
import importlib

PROPS = {
    "P01": ("c_math", "values"),
    "P02": ("c_math", "adjoint"),
    "P03": ("c_math", "forward"),
    "P04": ("c_math", "recording"),
    "P05": ("c_math", "higher"),
    "P06": ("c_objects", "assign"),
    "P07": ("c_objects", "ownership"),
    "P08": ("c_ref", "compare"),
    "P09": ("c_cx", "arithmetic"),
    "P10": ("c_prog", "isolation"),
    "P11": ("c_tape", "refused"),
    "P12": ("c_tape", "sweep"),
    "P13": ("c_tape", "positions"),
    "P14": ("c_tape", "restarts"),
    "P15": ("c_tape", "checkpoints"),
    "P16": ("c_tape", "moves"),
    "P17": ("c_chunk", "container"),
    "P19": ("c_jac", "jacobians"),
    "P20": ("c_types", "interface"),
    "P21": ("c_prog", "nothrow"),
    "P18": ("c_tape", "slots"),
}


def run(prop, rep, tier):
    m, f = PROPS[prop]
    getattr(importlib.import_module(m), f)(rep, tier)
