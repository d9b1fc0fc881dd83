"""Helpers shared by the contract modules."""
import z3
from wodvc.cxxmodels import Contract, forall
from wodvc.cxx import And, Or, Not, Implies, If

NS = 'waymo::open_dataset::'
ANON = 'waymo::open_dataset::(anonymous namespace)::'
R = z3.RealVal
I0 = z3.IntVal(0)


def g(E, t, path):
    """reads a dotted field path of a message or record term"""
    for f in path.split('.'):
        t = E.get(t, f)
    return t


def sqrt(E, x):
    return E.func('sqrt', z3.RealSort(), z3.RealSort())(x)


def fresh(name, sort):
    return z3.Const('spec!' + name, sort)


def inr(i, n):
    return And(i >= 0, i < n)


def sumf(name='sum'):
    return z3.Function(name, z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.IntSort(), z3.RealSort())


def enum_values(S, msg_enum):
    return S.program().enums.get(msg_enum)


def dbl(x, w=64):
    """exact value of the double (or float) constant x"""
    from wodvc.cxx import realval
    return realval(x, w)
