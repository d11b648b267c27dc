"""Analysing one function on its own: fresh opaque arguments, all return states."""
from . import terms as tm
from .terms import *
from .state import State
from .interp import Ctx, UNIT, short
from .driver import Run
from . import models


class Unit:
    def __init__(self, run, monitors=(), inv0=None):
        tm.reset()
        tm.next_round()
        tm.T.inv = dict(inv0 or {})
        tm.T.invw = set()
        self.run = run
        self.P = run.P
        E = self.E = run.engine()
        E.round = 0
        E.bot = False
        E.assumed = set(run.assumed)
        for k, v in run.assumed.items():
            tm.T.inv[k] = v
        E.monitors = list(monitors)

    def call(self, f, args, st=None):
        """[(state, value)]; async functions are run to completion"""
        return self.run.run_root(self.E, f, args=args, st=st or State())

    def opaque(self, ty, tag, st):
        return self.E.mk_opaque(nm(('unit', tag)), ty, st)

    def task(self, ty, st=None):
        P = self.P
        t = P.types[ty]
        st = st or State()
        n = nm(('task', t.get('dp', t['p'])))
        vals = []
        for i, ut in enumerate(t['u']):
            un = nm((n, ('f', i)), None, ('up', t.get('dp', t['p']), i))
            vals.append(self.E.mk_opaque(un, ut, st))
        self.E.root = 'task ' + t['p']
        return self.run.run_cor(self.E, ty, ('C', ty, tuple(vals)), st)


def sig(P, f):
    """(argument types, return type)"""
    return [f.locals[i + 1][0] for i in range(f.argc)], f.locals[0][0]


def find_fns(P, suffix=None):
    return [f for f in P.fns if f.local and f.blocks is not None and (suffix is None or f.p.endswith(suffix))]
