"""P09: complex numbers of AD variables."""
import c_objects, cxcases
from common import *


def arithmetic(rep, tier):
    rep.rule("Every operator, function and member of std::complex over AD types, on every supported kind of operand, is compiled in a short program and "
             "normalised; real and imaginary part of the result - value, derivative fields, and the statements recorded under each combination of recorded "
             "and passive parts, composed by the chain rule - are compared with real formulas of the parts and their symbolic derivatives: arithmetic by "
             "algebraic normal form, functions leaf by leaf at witnesses in all quadrants, on the axes and on the guards' boundaries.")
    tms = ["R", "F", "RF"] if tier == "quick" else ["R", "F", "Rf", "Ff", "RF", "FF"]
    c_objects.fold(rep, tms, ["default"] if tier == "quick" else ["default", "reuse", "weakinline"], ("value", "deriv", "record", "own"), 600, gen=cxcases.cxseqs, tag="cx_")
