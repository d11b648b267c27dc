"""Abstract state: memory + facts, and the (incomplete, sound) entailment test."""
from .terms import *
from . import terms as tm


_mul = {}
STAT = [0, 0]


class State:
    __slots__ = ('mem', 'ivl', 'lins', 'nes', 'bools', 'mon', 'locks', '_own', 'idx')

    def __init__(self):
        self.mem = {}
        self.ivl = {}      # atom -> (lo,hi)
        self.lins = {}     # tuple of (atom,coef) -> c        meaning  sum + c >= 0
        self.nes = frozenset()   # Lins known to be != 0
        self.bools = {}    # atom -> bool
        self.mon = {}      # monitor state
        self.locks = ()    # held guards: tuple of (lockid, mode, gid)

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.ivl = dict(self.ivl)
        s.lins = dict(self.lins)
        s.nes = self.nes
        s.bools = dict(self.bools)
        s.mon = dict(self.mon)
        s.locks = self.locks
        return s

    # ---------- intervals
    def arange(self, a):
        r = self.ivl.get(a)
        if r is None:
            if a.key[0] == 'mul':
                x, y = self.arange(a.key[1]), self.arange(a.key[2])
                lo, hi = prange(x, y)
                if a.key[1] is a.key[2]:
                    lo = max(lo, 0)
                return max(lo, a.lo), min(hi, a.hi)
            return a.lo, a.hi
        return r

    def rng(self, l):
        lo = hi = l.c
        for a, k in l.t:
            r = self.arange(a)
            if k > 0:
                lo = lo + r[0] * k
                hi = hi + r[1] * k
            else:
                lo = lo + r[1] * k
                hi = hi + r[0] * k
        return lo, hi

    def rng_tight(self, l):
        """interval, sharpened with the linear facts about exactly this expression"""
        lo, hi = self.rng(l)
        if len(l.t) > 1:
            c = self.lins.get(l.t)
            if c is not None:
                lo = max(lo, l.c - c)
            c = self.lins.get(tuple((a, -k) for a, k in l.t))
            if c is not None:
                hi = min(hi, l.c + c)
            if hi > 1500 and any(a.key[0] == 'mul' for a, _ in l.t):
                # products: bounds come from the facts, not from the intervals
                for b in (255, 1500, 8191, 65535):
                    if b >= hi:
                        break
                    if self.prove(sub(const(b), l)):
                        hi = b
                        break
            if lo < 0 and any(a.key[0] == 'mul' for a, _ in l.t) and self.prove(l):
                lo = 0
        return lo, hi

    def note_chunk(self, l):
        """l is the length of a piece cut by multiples of some size: remember that it does not exceed the size"""
        ds = {}
        for a, k in l.t:
            if a.key[0] == 'mul' and k in (1, -1):
                for f, x in ((a.key[1], a.key[2]), (a.key[2], a.key[1])):
                    cx = [q for b, q in l.t if b is x]
                    ds[addc(lin(f), (cx[0] * k) if cx else 0)] = 1
        if not l.t or not ds and not self.has_mul():
            return
        for t in self.lins:
            for a, _ in t:
                if a.key[0] in ('div', 'rem') and isinstance(a.key[2], Lin):
                    ds[a.key[2]] = 1
        for d in ds:
            if d is not l and self.prove(sub(d, l)):
                self.add_ge(sub(d, l))
                hi = self.rng(d)[1]
                if hi != POS:
                    self.add_ge(sub(const(hi), l))
                return

    def lb(self, l):
        lo = l.c
        for a, k in l.t:
            r = self.arange(a)
            lo = lo + (r[0] * k if k > 0 else r[1] * k)
        return lo

    # ---------- facts
    def assume(self, p):
        """conjoin p; returns False if the state becomes (detectably) empty"""
        if p is True:
            return True
        if p is False:
            return False
        k = p[0]
        if k == 'ge':
            return self.add_ge(p[1])
        if k == 'eq':
            l = p[1]
            if self.implies(('ne', l)):
                return False
            return self.add_ge(l) and self.add_ge(scale(l, -1))
        if k == 'ne':
            l = p[1]
            if self.implies(('eq', l)):
                return False
            if len(l.t) == 1 and l.t[0][1] in (1, -1):
                a = l.t[0][0]
                v = -l.c * l.t[0][1]
                lo, hi = self.arange(a)
                ch = False
                if lo == v:
                    lo += 1
                    ch = True
                if hi == v:
                    hi -= 1
                    ch = True
                if ch:
                    if lo > hi:
                        return False
                    self.ivl[a] = (lo, hi)
                    return self.renorm(a)
            else:
                # boundary tightening for general linear forms
                if self.prove(l):
                    return self.add_ge(addc(l, -1))
                if self.prove(scale(l, -1)):
                    return self.add_ge(addc(scale(l, -1), -1))
            self.nes = self.nes | {l}
            return True
        if k == 'b' or k == 'nb':
            v = (k == 'b')
            o = self.bools.get(p[1])
            if o is not None and o != v:
                return False
            self.bools[p[1]] = v
            return True
        if k == 'and':
            return self.assume(p[1]) and self.assume(p[2])
        if k == 'or':
            a = self.implies(p_not(p[1]))
            if a:
                return self.assume(p[2])
            if self.implies(p_not(p[2])):
                return self.assume(p[1])
            return True
        raise KeyError(k)

    def renorm(self, a):
        """an interval endpoint moved: apply pending disequalities"""
        for l in self.nes:
            if len(l.t) == 1 and l.t[0][0] is a and l.t[0][1] in (1, -1):
                v = -l.c * l.t[0][1]
                lo, hi = self.arange(a)
                if lo == v:
                    lo += 1
                elif hi == v:
                    hi -= 1
                else:
                    continue
                if lo > hi:
                    return False
                self.ivl[a] = (lo, hi)
                return self.renorm(a)
        return True

    def add_ge(self, l):
        if not l.t:
            return l.c >= 0
        p = p_ge(l)
        l = p[1]
        if self.prove(addc(scale(l, -1), -1), 3):
            return False
        if len(l.t) == 1:
            a, k = l.t[0]
            lo, hi = self.arange(a)
            if k > 0:      # k a + c >= 0 -> a >= ceil(-c/k)
                b = -(l.c // k)
                if b > lo:
                    lo = b
            else:          # a <= floor(c/-k)
                b = l.c // (-k)
                if b < hi:
                    hi = b
            if lo > hi:
                return False
            self.ivl[a] = (lo, hi)
            return self.renorm(a)
        o = self.lins.get(l.t)
        if o is None or l.c < o:
            self.lins[l.t] = l.c
            # single-step interval propagation
            for a, k in l.t:
                rest = l.c
                for b, q in l.t:
                    if b is not a:
                        r = self.arange(b)
                        rest = rest + (r[1] * q if q > 0 else r[0] * q)
                if rest in (NEG, POS):
                    continue
                lo, hi = self.arange(a)
                if k > 0:
                    v = -(rest // k)
                    if v > lo:
                        if v > hi:
                            return False
                        self.ivl[a] = (v, hi)
                        if not self.renorm(a):
                            return False
                else:
                    v = rest // (-k)
                    if v < hi:
                        if v < lo:
                            return False
                        self.ivl[a] = (lo, v)
                        if not self.renorm(a):
                            return False
            for n in self.nes:
                if n.t == l.t or n.t == tuple((a, -k) for a, k in l.t):
                    if n.t == l.t and n.c == self.lins[l.t]:
                        return self.add_ge(mk(l.c - 1, l.t))
                    if n.t != l.t and -n.c == self.lins[l.t]:
                        return self.add_ge(mk(l.c - 1, l.t))
        return True

    # ---------- entailment
    def prove(self, l, depth=4):
        """True if l >= 0 is entailed"""
        if not l.t:
            return l.c >= 0
        lo = self.lb(l)
        if lo >= 0:
            return True
        o = self.lins.get(l.t)
        if o is not None and o <= l.c:
            return True
        if not self.lins and not any(a.key[0] == 'mul' for a, _ in l.t):
            return False
        idx = None
        if self.lins:
            idx = {}
            for t, c in self.lins.items():
                for a, k in t:
                    idx.setdefault(a, []).append((t, c, k))
        if self._prove(l, depth, set(), [60], idx):
            return True
        if depth >= 3 and (any(a.key[0] == 'mul' for a, _ in l.t) or depth >= 4 and self.has_mul()):
            at = set(a for t in self.lins for a, _ in t)
            for a, _ in l.t:
                at.add(a)
            for a in list(at):
                if a.key[0] == 'mul':
                    at.add(a.key[1])
                    at.add(a.key[2])
            k = (l, frozenset(self.lins.items()), frozenset((a, self.arange(a)) for a in at if isinstance(a, Atom)))
            r = _mul.get(k)
            STAT[r is None] += 1
            if r is None:
                r = _mul[k] = self.prove_mul(l, idx)
            return r
        return False

    def has_mul(self):
        for t in self.lins:
            for a, _ in t:
                if a.key[0] == 'mul':
                    return True
        return False

    def _prove(self, l, depth, seen, fuel, idx):
        if self.lb(l) >= 0:
            return True
        if depth == 0 or l in seen or fuel[0] <= 0:
            return False
        seen.add(l)
        fuel[0] -= 1
        if idx:
            # eliminate the atoms whose bounds hurt most
            cand = []
            for a, q in l.t:
                if a in idx:
                    r = self.arange(a)
                    w = r[0] * q if q > 0 else r[1] * q
                    cand.append((w, a.id, a, q))
            cand.sort(key=lambda x: (x[0], x[1]))
            for w, _, a, q in cand[:2]:
                for t, c, k in idx[a]:
                    if (q > 0) == (k > 0):
                        m = sub_scaled(l, t, c, k, q)
                        if len(m.t) <= len(l.t) + 2 and self._prove(m, depth - 1, seen, fuel, idx):
                            return True
        return False

    def prove_mul(self, l, idx):
        """l >= 0 by way of products: facts f*(x-y-d) >= 0 for f >= 0, x-y-d >= 0"""
        fm = [mk(c, t) for t, c in self.lins.items() if any(a.key[0] == 'mul' for a, _ in t)]
        if any(a.key[0] == 'mul' for a, _ in l.t) and self._red(l, idx, 3):
            return True
        here = set(a for a, _ in l.t)
        for f in fm[:12]:
            if not any(a in here or (a.key[0] == 'mul' and (a.key[1] in here or a.key[2] in here)) for a, _ in f.t):
                continue
            if self._red(sub(l, f), idx, 3):
                return True
        return False

    def _red(self, l, idx, depth):
        muls = [(a, k) for a, k in l.t if a.key[0] == 'mul']
        if not muls:
            return self._prove(l, 2, set(), [20], idx)
        if depth == 0 or len(muls) > 3:
            return False
        for a, k in muls:
            for f, x in ((a.key[1], a.key[2]), (a.key[2], a.key[1])):
                if self.arange(f)[0] < 0:
                    continue
                cx = [z for y0, z in l.t if y0 is x]
                if k > 0:
                    for b, q in muls:
                        if not (q < 0 and b is not a and f in b.key[1:]):
                            continue
                        y = b.key[2] if b.key[1] is f else b.key[1]
                        d = sub(lin(x), lin(y))
                        w = min(k, -q)
                        # the factor may be f plus a constant: (f + c0) * (x-y-dd) >= 0
                        c0s = [cx[0] // k, 0] if cx and cx[0] % k == 0 else [0]
                        for dd in (2, 1, 0, -1):
                            if not self._prove(addc(d, -dd), 2, set(), [20], idx):
                                continue
                            for c0 in c0s:
                                if self.arange(f)[0] + c0 < 0:
                                    continue
                                m = add(l, scale(add(sub(lin(b), lin(a)), scale(lin(f), dd)), w))
                                if c0:
                                    m = add(m, scale(addc(d, -dd), -c0 * w))
                                if self._red(m, idx, depth - 1):
                                    return True
                            break
                xb = self.arange(x)[0 if k > 0 else 1]
                if xb not in (NEG, POS) and abs(xb) < 1 << 32:
                    # f*x >= f*lo(x),  f*x <= f*hi(x)
                    m = add(sub(l, scale(lin(a), k)), scale(lin(f), k * xb))
                    if self._red(m, idx, depth - 1):
                        return True
        return False

    def implies(self, p):
        if p is True:
            return True
        if p is False:
            return False
        k = p[0]
        if k == 'ge':
            return self.prove(p[1])
        if k == 'eq':
            return self.prove(p[1]) and self.prove(scale(p[1], -1))
        if k == 'ne':
            l = p[1]
            if l in self.nes or (l.t and norm_eq(l) in self.nes):
                return True
            return self.prove(addc(l, -1)) or self.prove(addc(scale(l, -1), -1))
        if k == 'b':
            return self.bools.get(p[1]) is True
        if k == 'nb':
            return self.bools.get(p[1]) is False
        if k == 'and':
            return self.implies(p[1]) and self.implies(p[2])
        if k == 'or':
            return self.implies(p[1]) or self.implies(p[2])
        raise KeyError(k)

    def decide(self, p):
        """True / False / None"""
        if p is True or p is False:
            return p
        if self.implies(p):
            return True
        if self.implies(p_not(p)):
            return False
        return None

    def eq_lin(self, x, y):
        if x is y:
            return True
        return self.decide(p_eq(sub(x, y)))


def sub_scaled(l, t, c, k, q):
    """l*|k| - (t+c)*|q|, which is >=0 with t+c>=0 implies l>=0"""
    k = abs(k)
    q = abs(q)
    g = gcd(k, q)
    k //= g
    q //= g
    return sub(scale(l, k), scale(mk(c, t), q))
