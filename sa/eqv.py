"""Deciding, in one abstract state, whether two values are the same (True / False / None)."""
from .terms import *
from .interp import byte_of
from . import terms as tm
from . import witness


def collapse(st, l):
    """sum of the bytes of one value -> the value"""
    g = {}
    for a, k in l.t:
        if a.key[0] == 'byte' and k == 1 << (8 * a.key[2]):
            g.setdefault(id(a.key[1]), (a.key[1], {}))[1][a.key[2]] = a
    for v, bs in g.values():
        n = len(bs)
        if set(bs) == set(range(n)):
            r = st.rng(v)
            if r[0] >= 0 and r[1] < (1 << (8 * n)):
                t = {a: k for a, k in l.t}
                for a in bs.values():
                    del t[a]
                return add(tm.mk(l.c, t), v)
    return l


def eq_lin(st, x, y):
    if x is y:
        return True
    if not isinstance(x, Lin) or not isinstance(y, Lin):
        return None
    x0, y0 = x, y
    x, y = collapse(st, x), collapse(st, y)
    if x is y:
        return True
    r = st.eq_lin(x, y)
    if r is not None:
        return r
    if len(x.t) == len(y.t) == 1 and x.c == y.c == 0 and x.t[0][1] == y.t[0][1] == 1:
        a, b = x.t[0][0].key, y.t[0][0].key
        if a[0] == b[0] == 'byte' and a[2] == b[2]:
            if eq_lin(st, a[1], b[1]) is True:
                return True
        if a[0] == b[0] == 'trunc' and len(a) == len(b) and a[2:] == b[2:]:
            if eq_lin(st, a[1], b[1]) is True:
                return True
    d = sub(x, y)
    r = st.rng_tight(d)
    if r[0] > 0 or r[1] < 0:
        return False
    if witness.nonzero(st, sub(x0, y0)):
        return False
    return None


def items(E, st, q):
    """a byte sequence as a list of ('b', lin) | ('sub', name, from, len) | ('rep', byte, len)"""
    out = []
    if not (isinstance(q, tuple) and q and q[0] == 'Q'):
        return None
    if q[2]:
        return None
    for g in q[1]:
        if g[0] == 'one':
            out.append(('b', g[1]))
        elif g[0] == 'int':
            v, n, e = g[1], g[2], g[3]
            ks = range(n) if e == 'L' else range(n - 1, -1, -1)
            out.extend(('b', byte_of(v, k)) for k in ks)
        elif g[0] == 'rep':
            r = st.rng(g[2])
            if r[0] == r[1] and r[0] <= 64:
                out.extend([('b', g[1])] * int(r[0]))
            else:
                out.append(('rep', g[1], g[2]))
        elif g[0] == 'sub':
            r = st.rng(g[3])
            if r[0] == r[1] and r[0] == 0:
                continue
            if r[0] == r[1] and r[0] <= 64:
                for k in range(int(r[0])):
                    out.append(('b', E.mk_opaque(E.elem_nm(g[1], addc(g[2], k), None), E.u8, st)))
            else:
                out.append(g)
        else:
            return None
    return out


def eq_seq0(E, st, a, b):
    x, y = items(E, st, a), items(E, st, b)
    if x is None or y is None:
        return None
    i = 0
    res = True
    if len(x) != len(y):
        # a vanishing variable part, or two different shapes
        return False if sum(1 for k in x if k[0] == 'b') != sum(1 for k in y if k[0] == 'b') and \
            all(k[0] == 'b' for k in x + y) else None
    for p, q in zip(x, y):
        if p[0] != q[0]:
            return None
        if p[0] == 'b':
            r = eq_lin(st, p[1], q[1])
        elif p[0] == 'rep':
            r = and3(eq_lin(st, p[1], q[1]), eq_lin(st, p[2], q[2]))
        else:
            r = and3(True if p[1] is q[1] else None, and3(eq_lin(st, p[2], q[2]), eq_lin(st, p[3], q[3])))
        if r is False:
            return False
        res = and3(res, r)
        i += 1
    return res


def eq_seq(E, st, a, b):
    r = eq_seq0(E, st, a, b)
    if r is None and witness.seq_differ(st, a, b):
        return False
    return r


def and3(a, b):
    if a is False or b is False:
        return False
    if a is True and b is True:
        return True
    return None


def eq(E, st, a, b, depth=0):
    if a is b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        return eq_lin(st, a, b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if not isinstance(a, tuple) or not isinstance(b, tuple) or depth > 8:
        return True if a == b else None
    if a == b:
        return True
    ta, tb = a[0], b[0]
    if ta == 'Q' and tb == 'Q':
        if seq_of_values(a) and seq_of_values(b):
            if len(a[1]) != len(b[1]):
                return False
            r = True
            for x, y in zip(a[1], b[1]):
                r = and3(r, eq(E, st, x[1], y[1], depth + 1))
            return r
        return eq_seq(E, st, a, b)
    if ta == 'T' and tb == 'T' and len(a[1]) == len(b[1]):
        r = True
        for x, y in zip(a[1], b[1]):
            r = and3(r, eq(E, st, x, y, depth + 1))
        return r
    if ta == 'O' and tb in ('S', 'E'):
        return eq(E, st, E.expand(st, a), b, depth + 1)
    if tb == 'O' and ta in ('S', 'E'):
        return eq(E, st, a, E.expand(st, b), depth + 1)
    if ta == 'S' and tb == 'S' and len(a[2]) == len(b[2]):
        r = True
        for x, y in zip(a[2], b[2]):
            r = and3(r, eq(E, st, x, y, depth + 1))
        return r
    if ta == 'E' and tb == 'E':
        d = eq_lin(st, a[2], b[2])
        if d is not True:
            return d
        if a[2].t:
            return None
        pa = dict(a[3]).get(a[2].c, ())
        pb = dict(b[3]).get(b[2].c, ())
        r = True
        for x, y in zip(pa, pb):
            r = and3(r, eq(E, st, x, y, depth + 1))
        return r
    if ta in ('b', 'and', 'or', 'not', 'ge', 'eq', 'ne') and tb in ('b', 'and', 'or', 'not', 'ge', 'eq', 'ne'):
        return None
    if {ta, tb} == {'X', 'O'}:
        x, o = (a, b) if ta == 'X' else (b, a)
        if x[1] == 'sa':
            return eq_addr(E, st, x, o)
    return None


def seq_of_values(q):
    return not q[2] and all(g[0] == 'one' and isinstance(g[1], tuple) for g in q[1])


def eq_addr(E, st, x, o):
    """a rebuilt socket address against an opaque one"""
    n = o[1]
    port = x[3]
    ip = x[2]
    if ip[0] == 'E' and not ip[2].t:
        d = eq_lin(st, E.discr(st, o), ip[2])
        if d is not True:
            return d
    if not (isinstance(port, Lin) and len(port.t) == 1 and port.c == 0 and port.t[0][0].key == ('o', nm((n, 'port')))):
        pk = port.t[0][0].key if isinstance(port, Lin) and len(port.t) == 1 else None
        if not (pk and pk[0] == 'o' and pk[1].key == child(n, 'port').key):
            return False if isinstance(port, Lin) else None
    if ip[0] != 'E' or ip[2].t:
        return None
    pl = dict(ip[3]).get(ip[2].c)
    if not pl or pl[0][0] != 'X':
        return None
    k = {'ip4': (4, 'oct4'), 'ip16': (16, 'oct16')}.get(pl[0][1])
    if k is None:
        return None
    want = child(n, k[1])
    bs = items(E, st, pl[0][2])
    if bs is None or len(bs) != k[0]:
        return False
    for i, (_, b) in enumerate(bs):
        w = E.mk_opaque(E.elem_nm(want, const(i), None), E.u8, st)
        if eq_lin(st, b, w) is not True:
            return False
    return True
