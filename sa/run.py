"""Analyse one function of the extracted program with symbolic parameters."""
from . import terms as t
from .terms import mk, TRUE
from .interp import Interp, State, INB, Give_up
from .models import Models
from .mir import Program, strip_ref


class Fn:
    """result of analysing a function"""
    def __init__(self, body, value, pc, inb, params, muts):
        self.body, self.value, self.pc, self.inb, self.params, self.muts = body, value, pc, inb, params, muts

    @property
    def ret(self):
        return self.value


def new_interp(prog, faults=False, strict=False):
    m = Models()
    m.faults, m.strict = faults, strict
    m.prog = prog
    return Interp(prog, m)


def analyse(prog, path, args=None, env=None, interp=None, cellargs=()):
    """-> Fn (value None if the function never returns).  args: list of terms or None for fresh parameters"""
    I = interp or new_interp(prog)
    b = prog.by_path[path]
    st = State({}, ())
    av = []
    cells = {}
    for i in range(b.nargs):
        ty = b.locals[i + 1]
        x = args[i] if args and i < len(args) and args[i] is not None else mk('param', 'a%d' % i)
        if (ty.get('k') == 'ref' and ty.get('m')) or i in cellargs:
            cell = ('arg', i)
            st.store[(cell, 0)] = x
            cells[i] = (cell, 0)
            x = mk('mref', cell, 0)
        av.append(x)
    r = I.call_body(b, env or {}, av, st)
    if r is None:
        return Fn(b, None, (t.FALSE,), TRUE, av, {})
    v, s = r
    return Fn(b, v, s.pc, s.store.get(INB, TRUE), av, {i: s.store.get(c) for i, c in cells.items()})
