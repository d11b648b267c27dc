"""Refuting an equation between extracted terms: an assignment of the inputs, consistent with the path's facts, under
which the two terms evaluate differently.  Only terms built from inputs by exact operators are evaluated."""
import random, os
from .terms import *
from . import terms as tm

FREE = ('o', 'len', 'discr')
COUNT = [False]     # loop counters may be chosen freely (within their facts)
STRICT = [False]    # a fact that cannot be evaluated but concerns a chosen input spoils the witness


class NoEval(Exception):
    pass


def asi(v):
    if isinstance(v, bool):
        return int(v)
    return v


class Env:
    def __init__(self, st, rnd):
        self.st = st
        self.rnd = rnd
        self.val = {}

    def free(self, a):
        if a in self.val:
            return self.val[a]
        raise NoEval(a)

    def lin(self, l):
        r = l.c
        for a, k in l.t:
            r += k * self.atom(a)
        return r

    def any(self, x):
        if isinstance(x, Lin):
            return self.lin(x)
        if isinstance(x, (bool, int)):
            return int(x)
        if isinstance(x, tuple):
            return int(self.pred(x))
        raise NoEval(x)

    def atom(self, a):
        if a in self.val:
            return self.val[a]
        k = a.key
        h = k[0]
        if h in FREE or h == 'phi':
            return self.free(a)
        if h == 'byte':
            v = self.lin(k[1])
            r = (v >> (8 * k[2])) & 255
        elif h == 'bytex':
            raise NoEval(a)
        elif h == 'and':
            r = self.any(k[1]) & self.any(k[2])
        elif h == 'mul':
            r = self.atomlin(k[1]) * self.atomlin(k[2])
        elif h == 'shr':
            r = self.any(k[1]) >> self.any(k[2])
        elif h == 'shl':
            x = self.any(k[1]) << self.any(k[2])
            r = wrap(x, k[3], k[4])
        elif h == 'div':
            x, y = self.any(k[1]), self.any(k[2])
            if y == 0:
                raise NoEval(a)
            r = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                r = -r
        elif h == 'rem':
            x, y = self.any(k[1]), self.any(k[2])
            if y == 0:
                raise NoEval(a)
            r = abs(x) % abs(y)
            if x < 0:
                r = -r
        elif h == 'trunc':
            r = wrap(self.any(k[1]), k[2], k[3])
        elif h == 'wrap':
            x, y = self.any(k[2]), self.any(k[3])
            op = k[1]
            if op == 'Add':
                r = x + y
            elif op == 'Sub':
                r = x - y
            elif op == 'Mul':
                r = x * y
            else:
                raise NoEval(a)
            r = wrap(r, k[4], k[5])
        elif h == 'b2i':
            r = self.any(k[1])
        elif h in ('BitOr', 'BitXor', 'or', 'xor'):
            x, y = self.any(k[1]), self.any(k[2])
            r = x | y if h in ('BitOr', 'or') else x ^ y
        else:
            raise NoEval(a)
        self.val[a] = r
        return r

    def atomlin(self, x):
        return self.atom(x) if isinstance(x, Atom) else self.any(x)

    def pred(self, p):
        if isinstance(p, bool):
            return p
        h = p[0]
        if h == 'ge':
            return self.lin(p[1]) >= 0
        if h == 'eq':
            return self.lin(p[1]) == 0
        if h == 'ne':
            return self.lin(p[1]) != 0
        if h == 'b':
            return bool(self.atom(p[1]))
        if h == 'nb':
            return not self.atom(p[1])
        if h == 'and':
            return self.pred(p[1]) and self.pred(p[2])
        if h == 'or':
            return self.pred(p[1]) or self.pred(p[2])
        raise NoEval(p)


def wrap(x, lo, hi):
    if lo in (NEG, POS) or hi in (NEG, POS):
        raise NoEval('wrap')
    n = int(hi) - int(lo) + 1
    return (x - int(lo)) % n + int(lo)


def leaves(x, acc):
    """the input atoms of a term; None when it has a part that is not an exact function of inputs"""
    if isinstance(x, Lin):
        return all(leaves(a, acc) for a, _ in x.t)
    if isinstance(x, Atom):
        if x.key[0] in FREE:
            if x.orig:
                return False
            acc.add(x)
            return True
        if COUNT[0] and x.key[0] == 'phi' and x in tm.T.counting:
            acc.add(x)
            return True
        if x.key[0] in ('phi', 'any', 'f2i', 'cmp', 'veq', 'utf8', 'contains', 'in', 'inx', 'seqeq', 'bytex', 'discrx'):
            return False
        return all(leaves(y, acc) for y in x.key[1:])
    if isinstance(x, tuple):
        return all(leaves(y, acc) for y in x)
    return True


def mentions(x, acc):
    if isinstance(x, Lin):
        return any(mentions(a, acc) for a, _ in x.t)
    if isinstance(x, Atom):
        return x in acc or any(mentions(y, acc) for y in x.key[1:])
    if isinstance(x, tuple):
        return any(mentions(y, acc) for y in x)
    return False


def pool(st, a, consts, rnd):
    lo, hi = st.arange(a)
    lo = max(lo, -(1 << 63))
    hi = min(hi, (1 << 64) - 1)
    if a.key[0] == 'len':
        hi = min(hi, 70000 if not COUNT[0] else 199000)
    if lo > hi:
        return []
    lo, hi = int(lo), int(hi)
    c = {lo, hi, lo + 1, hi - 1, (lo + hi) // 2}
    for k in (0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 63, 127, 128, 255, 256, 257, 300, 1023, 4095, 8191, 8192, 32767, 32768, 65535, 65536,
              (1 << 23), (1 << 24) - 1, (1 << 24), (1 << 31), (1 << 32) - 1, 0x123456, 0x12345678, 0x123456789abcdef0):
        c.add(k)
    for k in consts:
        c.update((k - 1, k, k + 1))
    for _ in range(12):
        c.add(rnd.randint(lo, hi))
    return [x for x in c if lo <= x <= hi]


def consts_of(x, acc, d=0):
    if isinstance(x, Lin):
        acc.add(abs(int(x.c)))
        for a, _ in x.t:
            consts_of(a, acc, d + 1)
    elif isinstance(x, Atom) and d < 12:
        for y in x.key[1:]:
            consts_of(y, acc, d + 1)
    elif isinstance(x, int) and not isinstance(x, bool):
        acc.add(abs(x))
    elif isinstance(x, tuple) and d < 12:
        for y in x:
            consts_of(y, acc, d + 1)


def repair(e, facts, bounds, rnd):
    """change single inputs until the linear facts hold, a few times"""
    for _ in range(24):
        bad = None
        for p in facts:
            if p[0] not in ('ge', 'ne') or not all(a in e.val for a, _ in p[1].t):
                continue
            v = e.lin(p[1])
            if v < 0 if p[0] == 'ge' else v == 0:
                bad = p
                break
        if bad is None:
            return
        ts = list(bad[1].t)
        a, k = ts[rnd.randrange(len(ts))]
        lo, hi = bounds[a]
        if bad[0] == 'ge':
            # the least change of this input that makes the term zero or more
            d = -(v // k) if k > 0 else -((-v + (-k) - 1) // -k)
        else:
            d = rnd.choice((1, -1))
        e.val[a] = min(max(e.val[a] + d, lo), hi)


def envs(st, terms, n=300):
    """assignments of the inputs of these terms that satisfy every evaluable fact of the path"""
    acc = set()
    for t in terms:
        if not leaves(t, acc):
            return
    facts = []
    work = [('ge', tm.mk(c, t)) for t, c in st.lins.items()]
    work += [('ne', l) for l in st.nes]
    work += [('b', a) if b else ('nb', a) for a, b in st.bools.items() if isinstance(a, Atom)]
    grow = True
    left = []
    for p in work:
        s = set()
        if leaves(p[1:], s):
            left.append((p, s))
    ranges = []
    for a, r in st.ivl.items():
        s = set()
        if a.key[0] not in FREE and leaves(a, s):
            left.append((('rng', a, r), s))
    while grow:
        grow = False
        for x in list(left):
            if x[1] & acc:
                acc |= x[1]
                facts.append(x[0])
                left.remove(x)
                grow = True
    if len(acc) > 40:
        return
    if STRICT[0]:
        for p in work:
            if not leaves(p[1:], set()) and mentions(p[1:], acc):
                return
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))
    cs = set()
    for t in list(terms) + [p[1:] for p in facts]:
        consts_of(t, cs)
    pools = {a: pool(st, a, cs, rnd) for a in sorted(acc, key=lambda a: a.id)}
    if any(not p for p in pools.values()):
        return
    got = 0
    bounds = {a: (min(p), max(p)) for a, p in pools.items()}
    for tries in range(n * 20):
        e = Env(st, rnd)
        for a, p in pools.items():
            e.val[a] = rnd.choice(p)
        if tries < 100:
            repair(e, facts, bounds, rnd)
        ok = True
        try:
            for p in facts:
                if p[0] == 'rng':
                    v = e.atom(p[1])
                    if not p[2][0] <= v <= p[2][1]:
                        ok = False
                        break
                elif not e.pred(p):
                    ok = False
                    break
        except NoEval:
            return
        if ok:
            got += 1
            yield e
            if got >= n:
                return


def show(e):
    return ', '.join('%s=%d' % (a, v) for a, v in sorted(e.val.items(), key=lambda p: p[0].id) if a.key[0] in FREE or a.key[0] == 'phi')[:300]


def nonzero(st, d):
    """an assignment under which the term is not zero, or None"""
    try:
        for e in envs(st, [d]):
            if e.lin(d) != 0:
                return show(e) or 'constant'
    except NoEval:
        pass
    return None


def seq_val(e, q):
    out = []
    for g in q[1]:
        if g[0] == 'one':
            out.append(e.any(g[1]))
        elif g[0] == 'int':
            v, n, en = e.lin(g[1]), g[2], g[3]
            b = [(v >> (8 * k)) & 255 for k in range(n)]
            out.extend(b if en == 'L' else b[::-1])
        elif g[0] == 'rep':
            n = e.lin(g[2])
            if n < 0 or n > 200000:
                raise NoEval('rep')
            out.extend([e.any(g[1])] * n)
        elif g[0] == 'sub':
            f, n = e.lin(g[2]), e.lin(g[3])
            if n < 0 or n > 200000:
                raise NoEval('sub')
            out.extend((g[1], f + k) for k in range(n))
        else:
            raise NoEval(g[0])
    return out


def seq_terms(q):
    for g in q[1]:
        if g[0] == 'one':
            yield g[1]
        elif g[0] == 'int':
            yield g[1]
        elif g[0] in ('rep', 'sub'):
            yield g[2]
            if g[0] == 'sub':
                yield g[3]


def seq_differ(st, a, b):
    """an assignment under which two byte sequences differ, or None"""
    if a[2] or b[2]:
        return None
    try:
        ts = list(seq_terms(a)) + list(seq_terms(b))
        for e in envs(st, ts, 120):
            x, y = seq_val(e, a), seq_val(e, b)
            if len(x) != len(y):
                return show(e) or 'constant'
            for p, q in zip(x, y):
                if p != q:
                    if isinstance(p, int) != isinstance(q, int):
                        return (show(e) or 'constant') + ' (a payload byte against a constant)'
                    return show(e) or 'constant'
    except NoEval:
        pass
    return None


def feasible(st):
    """True when an assignment of the inputs satisfies every evaluable fact of the path; None when none was found"""
    ts = []
    for t, c in st.lins.items():
        s = set()
        l = tm.mk(c, t)
        if leaves(l, s):
            ts.append(l)
    for l in st.nes:
        s = set()
        if leaves(l, s):
            ts.append(l)
    for a in list(st.ivl) + [a for a in st.bools if isinstance(a, Atom)]:
        s = set()
        if leaves(a, s) and s:
            ts.append(lin(a))
    if not ts:
        return True
    try:
        for e in envs(st, ts, 1):
            return True
    except NoEval:
        return True
    return None


def falsify(st, p):
    """an assignment under which the predicate fails on this path, or None"""
    try:
        if p[0] == 'ge':
            for e in envs(st, [p[1]]):
                if e.lin(p[1]) < 0:
                    return show(e) or 'constant'
    except NoEval:
        pass
    return None
