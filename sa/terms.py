"""Hash-consed names, integer atoms, linear expressions and predicates."""
from math import gcd

NEG = float('-inf')
POS = float('inf')


NOORIG = frozenset()


class Nm:
    """A structural name of an opaque value.  Interned; identity equality."""
    __slots__ = ('id', 'key', 'orig', 'inv', '_s')

    def __repr__(self):
        return nm_str(self)


class Atom:
    __slots__ = ('id', 'key', 'lo', 'hi', 'orig', 'inv')

    def __repr__(self):
        return atom_str(self)


class Lin:
    __slots__ = ('c', 't', 'id', 'orig')

    def __repr__(self):
        return lin_str(self)


class Tab:
    pass


T = Tab()


def reset():
    _parts.clear()
    T.nms = {}
    T.atoms = {}
    T.lins = {}
    T.invw = set()
    T.inv = {}        # invariant table of the previous round (key -> Inv)
    T.counting = {}   # phi atom -> first value, when every further iteration adds one


def next_round():
    """forget what depends on the invariant table; names and constants keep their identity"""
    _parts.clear()
    T.counting = {}
    T.atoms = {}
    T.lins = {k: v for k, v in T.lins.items() if not v.t}


def origs(x):
    """Generation points contained in a key component."""
    if isinstance(x, (Nm, Lin, Atom)):
        return x.orig
    if isinstance(x, tuple):
        r = NOORIG
        for y in x:
            o = origs(y)
            if o and o is not r:
                r = o if not r else r | o
        return r
    return NOORIG


def nm(key, orig=None, inv=None):
    n = T.nms.get(key)
    if n is None:
        n = Nm()
        n.id = len(T.nms)
        n.key = key
        o = origs(key)
        if orig is not None:
            o = o | {orig}
        n.orig = o
        n.inv = inv
        n._s = None
        T.nms[key] = n
    return n


def collect(v, acc):
    """the names and atoms a value mentions (names nested in keys excluded)"""
    work = [v]
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work.extend(y for y in x if y is not None and not isinstance(y, (int, str)))
        elif isinstance(x, Lin):
            for a, _ in x.t:
                if a not in acc:
                    acc.add(a)
                    work.extend(y for y in a.key[1:] if isinstance(y, (Lin, Atom, tuple)))
        elif isinstance(x, Nm):
            acc.add(x)
        elif isinstance(x, Atom):
            if x not in acc:
                acc.add(x)
                work.extend(y for y in x.key[1:] if isinstance(y, (Lin, Atom, tuple)))
        elif isinstance(x, (frozenset, set, list)):
            work.extend(x)


_parts = {}


def parts(a):
    r = _parts.get(a)
    if r is None:
        acc = set()
        work = list(a.key)
        while work:
            x = work.pop()
            if isinstance(x, tuple):
                work.extend(x)
            elif isinstance(x, Nm):
                if x not in acc:
                    acc.add(x)
                    work.extend(x.key)
            elif isinstance(x, Lin):
                for b, _ in x.t:
                    work.append(b)
            elif isinstance(x, Atom):
                if x not in acc:
                    acc.add(x)
                    work.extend(x.key)
        r = _parts[a] = frozenset(acc)
    return r


def child(p, step, inv=None):
    return nm((p, step), None, inv)


def nm_str(n, depth=0):
    if n._s is None:
        k = n.key
        if len(k) == 2 and isinstance(k[0], Nm):
            s = nm_str(k[0]) + '.' + step_str(k[1])
        else:
            s = '/'.join(step_str(x) for x in k)
        if len(s) > 160:
            s = s[:60] + '..' + s[-80:]
        n._s = s
    return n._s


def step_str(x):
    if isinstance(x, tuple):
        return '(' + ','.join(step_str(y) for y in x) + ')'
    return str(x)


def atom(key, lo=NEG, hi=POS, orig=None, inv=None):
    a = T.atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(T.atoms)
        a.key = key
        a.lo = lo
        a.hi = hi
        o = origs(key)
        if orig is not None:
            o = o | {orig}
        a.orig = o
        a.inv = inv
        T.atoms[key] = a
    return a


def atom_str(a):
    k = a.key
    if k[0] == 'o':
        return nm_str(k[1])
    s = k[0] + '(' + ','.join(step_str(x) for x in k[1:]) + ')'
    if len(s) > 160:
        s = s[:60] + '..' + s[-80:]
    return s


def mk(c, t):
    """t: dict atom->coef or sorted tuple"""
    if isinstance(t, dict):
        t = tuple(sorted(((a, k) for a, k in t.items() if k != 0), key=lambda p: p[0].id))
    key = (c, t)
    l = T.lins.get(key)
    if l is None:
        l = Lin()
        l.c = c
        l.t = t
        l.id = len(T.lins)
        o = NOORIG
        for a, _ in t:
            if a.orig and a.orig is not o:
                o = a.orig if not o else o | a.orig
        l.orig = o
        T.lins[key] = l
    return l


def const(c):
    return mk(int(c), ())


def lin(a):
    return mk(0, ((a, 1),))


def is_const(l):
    return not l.t


def add(x, y):
    if not y.t:
        return mk(x.c + y.c, x.t) if y.c else x
    if not x.t:
        return mk(x.c + y.c, y.t)
    d = dict(x.t)
    for a, k in y.t:
        d[a] = d.get(a, 0) + k
    return mk(x.c + y.c, d)


def scale(x, k):
    if k == 1:
        return x
    if k == 0:
        return const(0)
    return mk(x.c * k, tuple((a, q * k) for a, q in x.t))


def sub(x, y):
    return add(x, scale(y, -1))


def addc(x, c):
    return mk(x.c + c, x.t) if c else x


def lin_str(l):
    r = []
    for a, k in l.t:
        s = atom_str(a)
        r.append(s if k == 1 else ('-' + s if k == -1 else '%d*%s' % (k, s)))
    if l.c or not r:
        r.append(str(l.c))
    return '+'.join(r).replace('+-', '-')


def mul(x, y):
    """exact (mathematical) product"""
    if not x.t:
        return scale(y, x.c)
    if not y.t:
        return scale(x, y.c)
    r = const(x.c * y.c)
    r = add(r, scale(mk(0, y.t), x.c))
    r = add(r, scale(mk(0, x.t), y.c))
    for a, k in x.t:
        for b, q in y.t:
            p = (a, b) if a.id <= b.id else (b, a)
            lo, hi = prange((a.lo, a.hi), (b.lo, b.hi))
            r = add(r, scale(lin(atom(('mul', p[0], p[1]), lo, hi)), k * q))
    return r


def prange(r1, r2):
    vs = []
    for x in r1:
        for y in r2:
            if x == 0 or y == 0:
                vs.append(0)
            else:
                vs.append(x * y)
    return min(vs), max(vs)


def subst(l, m):
    """replace atoms by linear expressions (m: atom -> Lin)"""
    r = mk(l.c, ())
    for a, k in l.t:
        b = m.get(a)
        if b is None and a.key[0] == 'mul':
            x, y = a.key[1], a.key[2]
            if x in m or y in m:
                b = mul(m.get(x) or lin(x), m.get(y) or lin(y))
        r = add(r, scale(b, k) if b is not None else mk(0, ((a, k),)))
    return r


# ---- predicates: True/False | ('ge',Lin) | ('eq',Lin) | ('ne',Lin) | ('b',Atom) | ('nb',Atom)
#      | ('and',p,q) | ('or',p,q)

def p_ge(l):
    if not l.t:
        return l.c >= 0
    g = 0
    for _, k in l.t:
        g = gcd(g, abs(k))
    if g > 1:
        l = mk(l.c // g, tuple((a, k // g) for a, k in l.t))
    return ('ge', l)


def norm_eq(l):
    g = 0
    for _, k in l.t:
        g = gcd(g, abs(k))
    if g > 1:
        if l.c % g:
            return None
        l = mk(l.c // g, tuple((a, k // g) for a, k in l.t))
    if l.t and l.t[0][1] < 0:
        l = scale(l, -1)
    return l


def p_eq(l):
    if not l.t:
        return l.c == 0
    l = norm_eq(l)
    if l is None:
        return False
    return ('eq', l)


def p_ne(l):
    p = p_eq(l)
    if p is True:
        return False
    if p is False:
        return True
    return ('ne', p[1])


def p_not(p):
    if p is True:
        return False
    if p is False:
        return True
    k = p[0]
    if k == 'ge':      # l>=0  ->  -l-1>=0
        return p_ge(addc(scale(p[1], -1), -1))
    if k == 'eq':
        return ('ne', p[1])
    if k == 'ne':
        return ('eq', p[1])
    if k == 'b':
        return ('nb', p[1])
    if k == 'nb':
        return ('b', p[1])
    if k == 'and':
        return ('or', p_not(p[1]), p_not(p[2]))
    if k == 'or':
        return ('and', p_not(p[1]), p_not(p[2]))
    raise KeyError(k)


def p_and(p, q):
    if p is True:
        return q
    if q is True:
        return p
    if p is False or q is False:
        return False
    return ('and', p, q) if p != q else p


def p_or(p, q):
    return p_not(p_and(p_not(p), p_not(q)))


def p_bool(a):
    return ('b', a)


reset()
