"""Logic terms: the universal sort U, abstract sequences, uninterpreted helpers.

Everything that is not a number or a truth value lives in the datatype U.
Sequences are kept structurally (tuples of parts) by the engine; the solver only
sees the uninterpreted sort SeqS for the atoms that have not been taken apart.
"""
from fractions import Fraction
import z3

_d = z3.Datatype('U')
_d.declare('none')
_d.declare('bool', ('ub', z3.BoolSort()))
_d.declare('int', ('ui', z3.IntSort()))
_d.declare('real', ('ur', z3.RealSort()))
_d.declare('str', ('us', z3.IntSort()))
_d.declare('ref', ('uid', z3.IntSort()))
_d.declare('nil')
_d.declare('cons', ('hd', _d), ('tl', _d))
U = _d.create()
SeqS = z3.DeclareSort('SeqS')

_interned = {}


def intern_id(x):
    k = (type(x).__name__, x)
    if k not in _interned:
        _interned[k] = len(_interned) + 1
    return _interned[k]


def interned_by_id(n):
    for (t, x), i in _interned.items():
        if i == n:
            return x
    return None


_funs = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    f = _funs.get(k)
    if f is None:
        f = _funs[k] = z3.Function(name, *sorts)
    return f


def realval(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        fr = Fraction(repr(x))
        return z3.RealVal(fr)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    raise TypeError(x)


B, I, R = z3.BoolSort(), z3.IntSort(), z3.RealSort()
