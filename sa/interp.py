"""Abstract interpreter over the exported MIR.

Disjunctive abstract interpretation: the abstract state is a finite set of
(memory, facts) elements per program point; branches refine facts, loops are
solved by widening, calls into crate code (and the std bodies that were
exported) are inlined, everything else goes through models.py.
"""
import sys
from .terms import *
from . import terms as tm
from .state import State
from .mir import INTW, int_range

sys.setrecursionlimit(60000)

RET = ('ret',)
CAP = 40          # states kept apart at one program point before joining
UNIT = ('T', ())
U = ('U',)
ZERO = None


class Ctx:
    __slots__ = ('chain', 'fn', 'parent', 'bb', 'id', 'fns', 'kids')

    def __init__(self, parent, bb, fn):
        self.parent = parent
        self.bb = bb
        self.fn = fn
        self.chain = (parent.chain + ((parent.fn.id, bb),)) if parent else ()
        self.fns = (parent.fns if parent else ()) + (fn.id,)
        self.kids = {}

    def kid(self, bb, fn):
        k = (bb, fn.id)
        c = self.kids.get(k)
        if c is None:
            c = self.kids[k] = Ctx(self, bb, fn)
        return c


class Call:
    """context handed to models"""
    __slots__ = ('E', 'ctx', 'bb', 'obj', 'args', 'dty', 'span', 'name', 'k', 'fnsp', 'tag', 'argops')

    def point(self):
        return self.ctx.chain + ((self.ctx.fn.id, self.bb),)

    def fresh(self, tag='r'):
        return nm(('g', self.point(), self.name, tag), self.point())

    def opq(self, st, ty, tag='r', inv=None):
        n = nm(('g', self.point(), self.name, tag), self.point(), inv)
        return self.E.mk_opaque(n, ty, st)


class Abort(Exception):
    pass


def key_pos(a):
    """(list of a map's keys, position) when the value is such an element"""
    if len(a.t) != 1 or a.c != 0 or a.t[0][1] != 1 or a.t[0][0].key[0] != 'o':
        return None
    n = a.t[0][0].key[1]
    if len(n.key) != 2 or not isinstance(n.key[1], tuple) or n.key[1][0] != 'e':
        return None
    b = n.key[0]
    r = b
    while r.key and r.key[0] == 'sorted':
        r = r.key[1]
    if not (r.key and r.key[0] == 'keys'):
        return None
    return b, n.key[1][1]


def distinct_keys(a, b):
    """two positions of one list of a map's keys hold different keys"""
    x = key_pos(a)
    y = key_pos(b) if x else None
    if not x or not y or x[0] is not y[0]:
        return False
    i, j = (k if isinstance(k, Lin) else const(k) if isinstance(k, int) else None for k in (x[1], y[1]))
    if i is None or j is None:
        return False
    d = sub(i, j)
    return not d.t and d.c != 0


class Engine:
    def __init__(self, prog, models):
        self.P = prog
        self.models = models
        self.u8 = prog.tid('u8')
        self.usize = prog.tid('usize')
        self.monitors = []
        self.watch = set()
        self.summ = set()      # functions treated as black boxes: arbitrary result, arbitrary effect on what they may modify
        self.sums = {}         # (function id, arguments) -> number, part of the result's name
        self.sumargs = []
        self.loops = []         # the loops being analysed, outermost first
        self.sumsites = {}
        self.obl = {}
        self.unknown = {}
        self.rec = {}
        self.changed = set()
        self.recg = {}     # the same without values nothing is known about: a first guess
        self.recw = set()  # keys whose values come from outside
        self.recd = {}     # key -> keys its values were computed from
        self.wire = {}
        self.ptype = {}
        self.fitems = {}
        self.fmemo = {}
        self.stats = {'calls': 0, 'blocks': 0, 'fns': set(), 'joins': 0, 'inst': 0, 'events': 0}
        self.select_depth = 0
        self.joined = {}
        self.pidx = {}
        self.spawns = {}
        self.flags = {}
        self.adt_alias = {}
        self.cap = CAP
        self.dbg = None
        self.limit_blocks = 3000000
        self.quiet = False
        self.root = None
        self.cur = ('', 0)
        self.assumed = set()
        self.bot = False
        self.botmemo = {}
        self.rec_on = True

    def wire_keys(self):
        """closure of the wire keys over the recorded dependencies"""
        users = {}
        for k, ds in self.recd.items():
            for d in ds:
                users.setdefault(d, []).append(k)
        out = set(self.recw)
        work = list(out)
        while work:
            for u in users.get(work.pop(), ()):
                if u not in out:
                    out.add(u)
                    work.append(u)
        return out

    def note_spawn(self, st, c, f):
        """the captured values of a spawned task become visible to another root"""
        ty = f[1]
        t = self.P.types[ty]
        for i, x in enumerate(f[2]):
            ut = t['u'][i] if i < len(t['u']) else None
            self.record(st, x, ('up', t.get('dp', t['p']), i), ut, set())
        self.spawns[ty] = c.span

    # ------------------------------------------------------------ values
    def inv_child(self, n, ty, step):
        t = self.P.types[ty] if ty is not None else None
        if t and t['k'] == 'adt' and t.get('l'):
            return self.inv_base(n.inv, t['p']) + tuple(step)
        if n.inv is None:
            return None
        return n.inv + tuple(step)

    def inv_base(self, inv, p):
        """key of a crate type found under key inv: values of a type are told apart by where they are kept"""
        if inv is None or p in inv:
            return (p,)
        return inv + (p,)

    def child_nm(self, n, ty, step):
        return child(n, step, self.inv_child(n, ty, step))

    def mk_opaque(self, n, ty, st=None):
        P = self.P
        t = P.types[ty]
        k = t['k']
        if k in ('int', 'char'):
            lo, hi = P.irange(ty)
            r = self.look(n.inv) if n.inv is not None else None
            if r and r[0] == 'i':
                lo, hi = max(lo, r[1]), min(hi, r[2])
                if lo > hi:
                    lo, hi = P.irange(ty)
            elif r and r[0] == 'bot':
                lo, hi = max(lo, 0), max(lo, 0)
            return lin(atom(('o', n), lo, hi, inv=n.inv))
        if k == 'bool':
            r = self.look(n.inv) if n.inv is not None else None
            if r and r[0] == 'b' and r[1] is not None:
                return r[1]
            if r and r[0] == 'bot':
                return False
            return ('b', atom(('o', n), 0, 1, inv=n.inv))
        if k == 'float':
            return ('FL', n)
        if k in ('ref', 'ptr'):
            return self.mk_ref(('n', child(n, '*', n.inv + ('*',) if n.inv else None)), t['t'], st)
        if k == 'tuple':
            return ('T', tuple(self.mk_opaque(self.child_nm(n, ty, ('f', i)), a, st) for i, a in enumerate(t['a'])))
        if k == 'array':
            ln = t.get('n')
            l = const(ln) if ln is not None else self.len_atom(n)
            return ('Q', (('sub', n, const(0), l),), ())
        if k in ('slice', 'str'):
            return ('Q', (('sub', n, const(0), self.len_atom(n)),), ())
        if k == 'fndef':
            return ('F', ty)
        if k == 'closure' and not t['u']:
            return ('C', ty, ())
        if k == 'adt':
            p = t['p']
            if p in SEQS:
                return ('Q', (('sub', n, const(0), self.len_atom(n)),), ())
            if p in MAPS:
                return ('M', n, (), (), self.len_atom(n))
            if p == 'alloc::rcs::arc::Arc' or p == 'alloc::sync::Arc' or p == 'alloc::rc::Rc':
                loc = ('n', child(n, 'arc', n.inv + ('arc',) if n.inv else None))
                self.ptype[loc] = t['a'][0]
                return ('A', loc)
            if p == 'core::io::cursor::Cursor':
                pn = child(n, ('f', 1), n.inv + (('f', 1),) if n.inv else None)
                return ('S', ty, (self.mk_opaque(child(n, ('f', 0), n.inv + (('f', 0),) if n.inv else None), t['a'][0], st),
                                  self.mk_int_named(pn, 0, (1 << 63) - 1)))
            if p == 'alloc::boxed::Box':
                return self.mk_ref(('n', child(n, 'box', n.inv + ('*',) if n.inv else None)), t['a'][0], st)
            if t.get('ak') == 'struct' and t.get('v') and not t['v'][0]['f']:
                return ('S', ty, ())
        return ('O', n, ty)

    def mk_int_named(self, n, lo, hi):
        r = self.look(n.inv) if n.inv is not None else None
        if r and r[0] == 'i':
            lo, hi = max(lo, r[1]), min(hi, r[2])
        return lin(atom(('o', n), lo, hi, inv=n.inv))

    def len_atom(self, n):
        lo, hi = 0, (1 << 63) - 1
        r = self.look(n.inv + ('len',)) if n.inv is not None else None
        if r and r[0] == 'i':
            lo, hi = max(lo, r[1]), min(hi, r[2])
        elif r and r[0] == 'bot':
            lo, hi = 0, 0
        return lin(atom(('len', n), lo, hi, inv=n.inv + ('len',) if n.inv else None))

    def mk_ref(self, loc, ty, st):
        self.ptype[loc] = ty
        k = self.P.kind(ty)
        if k in ('slice', 'str'):
            return ('SL', loc, (), const(0), self.len_atom(loc[1]))
        return ('R', loc, ())

    def load(self, st, loc):
        v = st.mem.get(loc)
        if v is None:
            ty = self.ptype.get(loc)
            if ty is None:
                return U
            v = self.mk_opaque(loc[1], ty, st)
        return v

    def unit_or_opq(self, n, ty):
        return self.mk_opaque(n, ty)

    def get_step(self, st, v, s, write=False):
        tag = v[0] if isinstance(v, tuple) else None
        k = s[0]
        if k == 'f':
            if tag in ('S', 'C'):
                return v[2][s[1]] if s[1] < len(v[2]) else U
            if tag == 'T':
                return v[1][s[1]] if s[1] < len(v[1]) else U
            if tag == 'O':
                return self.mk_opaque(self.child_nm(v[1], v[2], ('f', s[1])), s[2], st)
            if tag == 'U':
                return U
            if tag == 'R' or tag == 'A' or tag == 'SL':
                return v
            return self.mk_opaque(nm(('bad', str(tag), s[1])), s[2], st)
        if k == 'v':
            if tag == 'E':
                for vi, pl in v[3]:
                    if vi == s[1]:
                        return pl[s[2]] if s[2] < len(pl) else U
                return U
            if tag == 'O':
                return self.mk_opaque(self.child_nm(v[1], v[2], ('v', s[1], s[2])), s[3], st)
            if tag == 'U':
                return U
            return self.mk_opaque(nm(('bad', str(tag), 'v', s[2])), s[3], st)
        if k == 'e':
            return self.seq_get(st, v, s[1], s[2])
        if k == 'm':
            r = self.map_find(st, v, s[1])
            if r is not None and r[0] == 'val':
                return r[1]
            if r is None and v[0] == 'M' and v[2]:
                # may be any of the overlay entries: nothing is known
                return self.mk_opaque(nm(('mapamb', vkey(v), vkey(s[1]))), s[2], st)
            return self.map_elem(st, v, s[1], s[2])
        if k == 'sl':
            return v
        raise Abort('step %r' % (s,))

    def get(self, st, loc, proj):
        v = self.load(st, loc)
        off = None
        for s in proj:
            if s[0] == 'sl':
                off = s[1] if off is None else add(off, s[1])
                continue
            if s[0] == 'e' and off is not None:
                s = ('e', add(off, s[1]), s[2])
                off = None
            v = self.get_step(st, v, s)
        return v

    def put(self, st, loc, proj, new):
        proj = flat(proj)
        if not proj:
            st.mem[loc] = new
            return
        st.mem[loc] = self.put_in(st, self.load(st, loc), proj, 0, new)

    def expand(self, st, v, ty=None, variant=None):
        """turn an opaque struct/tuple/closure/enum into an explicit one"""
        n, ty = v[1], v[2]
        t = self.P.types[ty]
        if t['k'] == 'closure' or t['k'] == 'coroutine':
            return ('C', ty, tuple(self.mk_opaque(self.child_nm(n, ty, ('f', i)), u, st) for i, u in enumerate(t['u'])))
        if t['k'] == 'adt' and t.get('v'):
            if t['ak'] == 'enum':
                return ('E', ty, self.discr(st, v),
                        tuple((vi, tuple(self.mk_opaque(self.child_nm(n, ty, ('v', vi, i)), f[1], st)
                                         for i, f in enumerate(va['f'])))
                              for vi, va in enumerate(t['v'])))
            return ('S', ty, tuple(self.mk_opaque(self.child_nm(n, ty, ('f', i)), f[1], st)
                                   for i, f in enumerate(t['v'][0]['f'])))
        return v

    def put_in(self, st, v, proj, i, new):
        if i == len(proj):
            return new
        s = proj[i]
        k = s[0]
        tag = v[0] if isinstance(v, tuple) else None
        if k == 'f':
            if tag == 'O':
                v = self.expand(st, v)
                tag = v[0]
            if tag in ('S', 'C'):
                vs = list(v[2])
                while len(vs) <= s[1]:
                    vs.append(U)
                vs[s[1]] = self.put_in(st, vs[s[1]], proj, i + 1, new)
                return (tag, v[1], tuple(vs))
            if tag == 'T':
                vs = list(v[1])
                while len(vs) <= s[1]:
                    vs.append(U)
                vs[s[1]] = self.put_in(st, vs[s[1]], proj, i + 1, new)
                return ('T', tuple(vs))
            if tag == 'U':
                if isinstance(new, tuple) and new == U:
                    return v
                vs = [U] * (s[1] + 1)
                vs[s[1]] = self.put_in(st, U, proj, i + 1, new)
                return ('T', tuple(vs))
            return v
        if k == 'v':
            if tag == 'O':
                v = self.expand(st, v)
                tag = v[0]
            if tag == 'E':
                out = []
                for vi, pl in v[3]:
                    if vi == s[1]:
                        pl = list(pl)
                        if s[2] < len(pl):
                            pl[s[2]] = self.put_in(st, pl[s[2]], proj, i + 1, new)
                        pl = tuple(pl)
                    out.append((vi, pl))
                return ('E', v[1], v[2], tuple(out))
            return v
        if k == 'e':
            old = U if i + 1 == len(proj) else self.seq_get(st, v, s[1], s[2])
            return self.seq_set(st, v, s[1], self.put_in(st, old, proj, i + 1, new))
        if k == 'm':
            old = self.get_step(st, v, s)
            return self.map_set(st, v, s[1], self.put_in(st, old, proj, i + 1, new))
        raise Abort('put %r' % (s,))

    # ------------------------------------------------------------ sequences
    def seg_len(self, g):
        if g[0] == 'one':
            return const(1)
        if g[0] == 'sub':
            return sub(g[3], g[2])
        if g[0] in ('rep', 'star'):
            return g[2]
        if g[0] == 'int':
            return const(g[2])
        raise KeyError(g[0])

    def seq_len(self, v):
        if v[0] != 'Q':
            return None
        r = const(0)
        for g in v[1]:
            r = add(r, self.seg_len(g))
        return r

    def elem_nm(self, n, idx, ety):
        return nm((n, ('e', idx)), None, n.inv + ('e',) if n.inv is not None else None)

    def seg_get(self, st, g, i, ety, key):
        if g[0] == 'one':
            return g[1]
        if g[0] == 'sub':
            return self.mk_opaque(self.elem_nm(g[1], add(g[2], i), ety), ety, st)
        if g[0] == 'rep':
            return g[1]
        if g[0] == 'int':
            v, n, e = g[1], g[2], g[3]
            if i.t:
                return lin(atom(('bytex', v, n, e, i), 0, 255))
            k = i.c if e == 'L' else n - 1 - i.c
            return byte_of(v, k)
        if g[0] == 'star':
            return self.mk_opaque(nm(('star', g[1], key, i)), ety, st)
        raise KeyError(g[0])

    def seq_get(self, st, v, i, ety):
        if not isinstance(v, tuple) or v[0] != 'Q':
            return self.mk_opaque(nm(('badseq', i)), ety, st)
        for fi, fv in reversed(v[2]):
            e = st.eq_lin(fi, i)
            if e is True:
                return fv
            if e is None:
                return self.ambig(st, v, i, ety)
        off = const(0)
        for g in v[1]:
            n = self.seg_len(g)
            rel = sub(i, off)
            if len(v[1]) == 1 or (st.prove(rel) and st.prove(addc(sub(n, rel), -1))):
                return self.seg_get(st, g, rel, ety, v[1])
            off = add(off, n)
        return self.ambig(st, v, i, ety)

    def ambig(self, st, v, i, ety):
        """an element of v that cannot be told from the others: anything v may hold"""
        if not self.rec_on:
            return self.mk_opaque(nm(('ambig', v, i)), ety, st)
        ek = ('amb',) + self.cur + (ety,)
        self.record_elems(st, v, ek, ety, set(), 1)
        return self.mk_opaque(nm(('ambig', v, i), None, ek), ety, st)

    def seq_set(self, st, v, i, new):
        if not isinstance(v, tuple) or v[0] != 'Q':
            return v
        # direct replacement of a single-element segment
        foc = tuple((fi, fv) for fi, fv in v[2] if st.eq_lin(fi, i) is not True)
        if not i.t:
            off = const(0)
            segs = list(v[1])
            for k, g in enumerate(segs):
                if g[0] == 'one' and off is i and not foc:
                    segs[k] = ('one', new)
                    return ('Q', tuple(segs), foc)
                if g[0] == 'rep' and not off.t and not g[2].t and off.c <= i.c < off.c + g[2].c and g[2].c <= 64 and not foc:
                    rep = [('one', g[1])] * g[2].c
                    rep[i.c - off.c] = ('one', new)
                    segs[k:k + 1] = rep
                    return ('Q', tuple(segs), foc)
                off = add(off, self.seg_len(g))
                if off.t:
                    break
        else:
            for k, g in enumerate(v[1]):
                pass
        return ('Q', v[1], foc + ((i, new),))

    def seq_push(self, v, new):
        return ('Q', v[1] + (('one', new),), v[2])

    def seq_slice(self, st, v, off, ln):
        """content of v[off..off+ln] as a Q value"""
        if v[0] != 'Q':
            return ('Q', (('sub', nm(('badslice', v)), const(0), ln),), ())
        tot = self.seq_len(v)
        if off is const(0) and tot is ln:
            return v
        segs = []
        pos = const(0)
        rem = ln
        need = off
        ok = True
        end = add(off, ln)
        for g in v[1]:
            n = self.seg_len(g)
            gend = add(pos, n)
            # segment entirely before?
            if st.prove(sub(off, gend)):
                pos = gend
                continue
            if st.prove(sub(pos, end)):
                break
            lo = sub(off, pos) if not st.prove(sub(pos, off)) else const(0)
            if lo is not const(0) and not st.prove(sub(off, pos)):
                ok = False
                break
            if st.prove(sub(end, gend)):
                hi = n
            elif st.prove(sub(gend, end)):
                hi = sub(end, pos)
            else:
                ok = False
                break
            if g[0] == 'sub':
                segs.append(('sub', g[1], add(g[2], lo), add(g[2], hi)))
            elif g[0] == 'rep':
                segs.append(('rep', g[1], sub(hi, lo)))
            elif lo is const(0) and hi is n:
                segs.append(g)
            elif g[0] == 'int' and not lo.t and not hi.t:
                for j in range(lo.c, hi.c):
                    segs.append(('one', self.seg_get(st, g, const(j), self.u8, None)))
            else:
                ok = False
                break
            pos = gend
        if ok and v[2]:
            foc = []
            for fi, fv in v[2]:
                if st.prove(sub(fi, off)) and st.prove(addc(sub(end, fi), -1)):
                    foc.append((sub(fi, off), fv))
                elif st.prove(addc(sub(off, fi), -1)) or st.prove(sub(fi, end)):
                    continue
                else:
                    ok = False
                    break
            if ok:
                return ('Q', tuple(segs), tuple(foc))
        if ok:
            return ('Q', tuple(segs), ())
        return ('Q', (('sub', nm(('slice', v, off)), const(0), ln),), ())

    def seq_cat(self, a, b):
        if a[0] != 'Q' or b[0] != 'Q':
            return a
        foc = a[2]
        if b[2]:
            la = self.seq_len(a)
            foc = foc + tuple((add(la, i), v) for i, v in b[2])
        return ('Q', a[1] + b[1], foc)

    # ------------------------------------------------------------ maps
    # ('M', base nm|None, ovl ((key,val|None)..), keyfacts ((keysnm, startLin)..), lenLin)
    def key_eq(self, st, a, b):
        return st.decide(self.veq(a, b))

    def veq(self, a, b):
        if a is b or a == b:
            return True
        if isinstance(a, Lin) and isinstance(b, Lin):
            if distinct_keys(a, b):
                return False
            return p_eq(sub(a, b))
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == b[0] == 'T':
                r = True
                for x, y in zip(a[1], b[1]):
                    r = p_and(r, self.veq(x, y))
                return r
            if a[0] == b[0] == 'S' and a[1] == b[1]:
                r = True
                for x, y in zip(a[2], b[2]):
                    r = p_and(r, self.veq(x, y))
                return r
            if a[0] == b[0] == 'E' and is_const(a[2]) and is_const(b[2]) and a[2] is not b[2]:
                return False
        ka, kb = sorted((repr(a), repr(b)))
        return ('b', atom(('veq', vkey(a), vkey(b)) if ka == repr(a) else ('veq', vkey(b), vkey(a)), 0, 1))

    def map_find(self, st, m, key):
        """('val',v) present / ('abs',) absent / ('base',) decided by base / None ambiguous"""
        if m[0] != 'M':
            return None
        for k, v in reversed(m[2]):
            e = self.key_eq(st, k, key)
            if e is True:
                return ('val', v) if v is not None else ('abs',)
            if e is None:
                return None
        if m[1] is None:
            return ('abs',)
        return ('base',)

    def map_in(self, m, key):
        return ('b', atom(('in', m[1], vkey(key)), 0, 1))

    def keyfact(self, st, m, key):
        """is key known to be in m because it was enumerated from m's keys"""
        if not isinstance(key, Lin) and not (isinstance(key, tuple) and key[0] == 'O'):
            return False
        n = None
        if isinstance(key, Lin):
            if len(key.t) == 1 and key.c == 0 and key.t[0][1] == 1 and key.t[0][0].key[0] == 'o':
                n = key.t[0][0].key[1]
        else:
            n = key[1]
        if n is None or len(n.key) != 2 or not isinstance(n.key[1], tuple) or n.key[1][0] != 'e':
            return False
        base, idx = n.key[0], n.key[1][1]
        for kn, start in m[3]:
            if kn is base and st.prove(sub(idx, start)):
                return True
            if perm_root(base) is perm_root(kn) and start is const(0):
                return True
        return False

    def map_has(self, st, m, key):
        """predicate: key in m  (or None if ambiguous aliasing)"""
        if self.keyfact(st, m, key):
            return True
        r = self.map_find(st, m, key)
        if r is None:
            return None
        if r[0] == 'val':
            return True
        if r[0] == 'abs':
            return False
        return self.map_in(m, key)

    def map_vty(self, mty):
        return self.P.types[mty]['a'][1]

    def map_elem(self, st, m, key, vty):
        if m[0] != 'M' or m[1] is None:
            return self.mk_opaque(nm(('mapelem', vkey(m), vkey(key))), vty, st)
        n = m[1]
        return self.mk_opaque(nm((n, ('m', vkey(key))), None, n.inv + ('m',) if n.inv is not None else None), vty, st)

    def map_set(self, st, m, key, val):
        if m[0] != 'M':
            return m
        ovl = tuple((k, v) for k, v in m[2] if self.key_eq(st, k, key) is not True)
        return ('M', m[1], ovl + ((key, val),), m[3], m[4])

    def map_remove(self, st, m, key, newlen):
        ovl = tuple((k, v) for k, v in m[2] if self.key_eq(st, k, key) is not True)
        kf = []
        n = None
        if isinstance(key, Lin) and len(key.t) == 1 and key.t[0][0].key[0] == 'o':
            n = key.t[0][0].key[1]
        elif isinstance(key, tuple) and key[0] == 'O':
            n = key[1]
        for kn, start in m[3]:
            if n is not None and len(n.key) == 2 and isinstance(n.key[1], tuple) and n.key[1][0] == 'e' \
                    and perm_root(n.key[0]) is perm_root(kn):
                idx = n.key[1][1]
                if n.key[0] is kn:
                    if st.prove(addc(sub(start, idx), -1)):
                        kf.append((kn, start))
                    elif st.prove(sub(idx, start)):
                        kf.append((kn, addc(idx, 1)))
                elif start is const(0):
                    kf.append((n.key[0], addc(idx, 1)))
        return ('M', m[1], ovl + ((key, None),), tuple(kf), newlen)

    # ------------------------------------------------------------ discriminants
    def discr(self, st, v):
        if not isinstance(v, tuple):
            return const(0)
        if v[0] == 'E':
            return v[2]
        if v[0] == 'O':
            n, ty = v[1], v[2]
            t = self.P.types[ty]
            ds = [x['d'] for x in (t.get('v') or [])]
            lo, hi = (min(ds), max(ds)) if ds else (0, 1 << 16)
            r = self.look(n.inv + ('discr',)) if n.inv is not None else None
            if r and r[0] == 'i':
                lo, hi = max(lo, r[1]), min(hi, r[2])
            if lo == hi:
                return const(lo)
            return lin(atom(('discr', n), lo, hi))
        return lin(atom(('discrx', vkey(v)), 0, 255))

    def mk_enum(self, ty, variant, vals):
        t = self.P.types[ty]
        if 'v' not in t:
            return ('X', 'variant', ty, const(variant))
        return ('E', ty, const(t['v'][variant]['d']), ((variant, tuple(vals)),))

    def is_variant(self, st, v, variant):
        d = self.discr(st, v)
        ty = v[1] if v[0] == 'E' else v[2]
        return p_eq(addc(d, -self.P.types[ty]['v'][variant]['d']))

    # ------------------------------------------------------------ places
    def place(self, st, ctx, pl):
        loc = ('l', ctx, pl[0])
        proj = ()
        dc = None
        for pr in pl[1]:
            k = pr[0]
            if k == '*':
                v = self.get(st, loc, proj)
                if isinstance(v, tuple) and v[0] == 'Q':
                    # a box holds its contents by value
                    if self.P.kind(pr[1]) in ('slice', 'str'):
                        proj = proj + (('sl', const(0), self.seq_len(v)),)
                else:
                    loc, proj = self.deref(st, v, pr[1])
            elif k == 'f':
                if dc is not None:
                    proj = proj + (('v', dc, pr[1], pr[2]),)
                    dc = None
                else:
                    proj = proj + (('f', pr[1], pr[2]),)
            elif k == 'dc':
                dc = pr[1]
            elif k == 'i':
                iv = self.load(st, ('l', ctx, pr[1]))
                if not isinstance(iv, Lin):
                    iv = lin(atom(('badidx', vkey(iv)), 0, POS))
                proj = proj + (('e', iv, pr[2]),)
            elif k == 'ci':
                off = pr[1]
                if pr[3]:
                    v = self.get(st, loc, proj)
                    base = self.cur_len(st, v, proj)
                    proj = proj + (('e', addc(base, -off), pr[4]),)
                else:
                    proj = proj + (('e', const(off), pr[4]),)
            elif k == 'sub':
                v = self.get(st, loc, proj)
                base = self.cur_len(st, v, proj)
                to = addc(base, -pr[2]) if pr[3] else const(pr[2])
                proj = proj + (('sl', const(pr[1]), sub(to, const(pr[1]))),)
            elif k == 'oc':
                pass
            else:
                raise Abort('proj ' + k)
        return loc, proj

    def cur_len(self, st, v, proj):
        if proj and proj[-1][0] == 'sl':
            return proj[-1][2]
        return self.seq_len(v)

    def deref(self, st, v, ty):
        tag = v[0] if isinstance(v, tuple) else None
        if tag == 'R':
            return v[1], v[2]
        if tag == 'SL':
            return v[1], v[2] + (('sl', v[3], v[4]),)
        if tag == 'A':
            return v[1], ()
        if tag == 'G':
            return v[4], ()
        n = nm(('badref', vkey(v) if tag else str(v), ty))
        self.flags['badref'] = self.flags.get('badref', 0) + 1
        loc = ('n', n)
        self.ptype.setdefault(loc, ty)
        return loc, (('sl', const(0), self.len_atom(n)),) if self.P.kind(ty) in ('slice', 'str') else ()

    def read_place(self, st, ctx, pl):
        loc, proj = self.place(st, ctx, pl)
        v = self.get(st, loc, proj)
        return v

    def operand(self, st, ctx, o):
        if o[0] == 'c':
            return self.read_place(st, ctx, o[1])
        if o[0] == 'm':
            loc, proj = self.place(st, ctx, o[1])
            v = self.get(st, loc, proj)
            if not is_scalar(v):
                self.put(st, loc, proj, U)
            return v
        return self.constant(st, o[1])

    def constant(self, st, c):
        ty = c['t']
        if 'v' in c and c['v'] is not None:
            return self.const_val(st, c['v'], ty)
        t = self.P.types[ty]
        if t['k'] in ('fndef',):
            return ('F', ty)
        if t['k'] == 'closure' and not t['u']:
            return ('C', ty, ())
        return self.mk_opaque(nm(('item', c.get('item', '?'), ty)), ty, st)

    def const_val(self, st, v, ty):
        P = self.P
        t = P.types[ty]
        k = t['k']
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            if k == 'bool':
                return bool(v)
            if k in ('int', 'char'):
                lo, hi = P.irange(ty)
                if v > hi and lo < 0:
                    v -= (hi - lo + 1)
                return const(v)
            if k == 'adt' and t.get('v') and len(t['v'][0]['f']) == 1 and t['ak'] == 'struct':
                return ('S', ty, (self.const_val(st, v, t['v'][0]['f'][0][1]),))
            return const(v)
        if isinstance(v, str):
            return const(int(v))
        if 'zst' in v:
            if k == 'tuple':
                return UNIT
            if k == 'fndef':
                return ('F', ty)
            if k == 'closure':
                return ('C', ty, ())
            if k == 'array':
                return ('Q', (), ())
            return ('S', ty, ())
        if 'float' in v:
            return ('FL', nm(('const', v['float'])))
        if 'static' in v:
            loc = ('s', nm(('static', v['static']), None, ('static', v['static'])))
            self.ptype[loc] = t['t'] if k in ('ref', 'ptr') else ty
            return ('R', loc, ())
        if 'bytes' in v:
            q = ('Q', tuple(('one', const(b)) for b in v['bytes']), ())
            if k in ('ref', 'ptr'):
                loc = ('k', nm(('bytes', bytes(v['bytes']))))
                st.mem[loc] = q
                it = P.kind(t['t'])
                if it in ('str', 'slice'):
                    return ('SL', loc, (), const(0), const(len(v['bytes'])))
                return ('R', loc, ())
            return q
        if 'slice' in v or ('arr' in v and k in ('ref', 'ptr')):
            xs = v.get('slice', v.get('arr'))
            if k in ('ref', 'ptr'):
                ety = P.elem_ty(t['t'])
                q = ('Q', tuple(('one', self.const_val(st, x, ety)) for x in xs), ())
                loc = ('k', nm(('arr', vkey(q))))
                st.mem[loc] = q
                if P.kind(t['t']) in ('str', 'slice'):
                    return ('SL', loc, (), const(0), const(len(xs)))
                return ('R', loc, ())
        if 'arr' in v:
            ety = P.elem_ty(ty)
            return ('Q', tuple(('one', self.const_val(st, x, ety)) for x in v['arr']), ())
        if 'ref' in v:
            if k not in ('ref', 'ptr'):
                return self.mk_opaque(nm(('constref', str(v))), ty, st)
            inner = t['t']
            iv = self.const_val(st, v['ref'], inner)
            loc = ('k', nm(('cref', vkey(iv), inner)))
            st.mem[loc] = iv
            if P.kind(inner) in ('slice', 'str'):
                return ('SL', loc, (), const(0), self.seq_len(iv))
            return ('R', loc, ())
        if 'fn' in v or 'call' in v:
            return self.mk_opaque(nm(('constfn', str(v)[:200])), ty, st)
        if 'var' in v:
            fs = []
            fts = None
            if k == 'adt' and t.get('v'):
                fts = [f[1] for f in t['v'][v['var']]['f']]
            elif k == 'tuple':
                fts = t['a']
            for i, x in enumerate(v['fs']):
                if isinstance(x, list):
                    xt, x = x[0], x[1]
                else:
                    xt = fts[i] if fts else None
                fs.append(self.const_val(st, x, xt) if x is not None else self.mk_opaque(nm(('constf', str(v)[:80], i)), xt, st))
            if k == 'tuple':
                return ('T', tuple(fs))
            if k == 'adt' and t.get('ak') == 'enum':
                return self.mk_enum(ty, v['var'], fs)
            return ('S', ty, tuple(fs))
        return self.mk_opaque(nm(('const', str(v)[:120], ty)), ty, st)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, ctx, rv, ty, bb, si):
        k = rv[0]
        if k == 'use':
            return self.operand(st, ctx, rv[1])
        if k in ('ref', 'raw', 'rb'):
            pl = [x for x in rv[1:] if isinstance(x, list)][0]
            loc, proj = self.place(st, ctx, pl)
            if proj and proj[-1][0] == 'sl':
                off, ln = proj[-1][1], proj[-1][2]
                proj = proj[:-1]
                while proj and proj[-1][0] == 'sl':
                    off = add(off, proj[-1][1])
                    proj = proj[:-1]
                return ('SL', loc, proj, off, ln)
            tt = self.P.types[ty]
            if tt['k'] in ('ref', 'ptr') and self.P.kind(tt['t']) in ('slice', 'str'):
                v = self.get(st, loc, proj)
                return ('SL', loc, proj, const(0), self.seq_len(v) or const(0))
            return ('R', loc, flat(proj))
        if k == 'bin':
            return self.binop(st, ctx, rv[1], rv[2], rv[3], rv[4], ty, (ctx.chain + ((ctx.fn.id, bb),), si))
        if k == 'un':
            v = self.operand(st, ctx, rv[2])
            if rv[1] == 'Not':
                if isinstance(v, Lin):
                    if not v.t:
                        lo, hi = self.P.irange(ty)
                        return const(hi - v.c) if lo == 0 else const(~v.c)
                    lo, hi = self.P.irange(ty)
                    if lo == 0:
                        return sub(const(hi), v)
                    return addc(scale(v, -1), -1)
                return p_not(v) if is_pred(v) else v
            if rv[1] == 'Neg':
                return scale(v, -1) if isinstance(v, Lin) else ('FL', nm(('neg', vkey(v))))
            if rv[1] == 'PtrMetadata':
                if isinstance(v, tuple) and v[0] == 'SL':
                    return v[4]
                return self.mk_opaque(nm(('meta', vkey(v))), ty, st)
            return self.mk_opaque(nm(('un', rv[1], vkey(v))), ty, st)
        if k == 'cast':
            return self.cast(st, ctx, rv, ty)
        if k == 'discr':
            v = self.read_place(st, ctx, rv[1])
            return self.discr(st, v)
        if k == 'agg':
            vals = [self.operand(st, ctx, o) for o in rv[2]]
            ak = rv[1][0]
            if ak == 'adt':
                t = self.P.types[ty]
                if t.get('ak') == 'enum':
                    r = self.mk_enum(ty, rv[1][1], vals)
                else:
                    r = ('S', ty, tuple(vals))
                    if t.get('l'):
                        self.on_construct(st, ctx, bb, r)
                return r
            if ak == 'tuple':
                return ('T', tuple(vals))
            if ak == 'array':
                return ('Q', tuple(('one', v) for v in vals), ())
            if ak in ('closure', 'coroutine'):
                return ('C', ty, tuple(vals))
            return ('T', tuple(vals))
        if k == 'rep':
            v = self.operand(st, ctx, rv[1])
            n = rv[2]
            return ('Q', (('rep', v, const(n)),) if n else (), ())
        if k == 'tls':
            return self.mk_opaque(nm(('tls', str(rv))), ty, st)
        return self.mk_opaque(nm(('rv', str(rv)[:80])), ty, st)

    def on_construct(self, st, ctx, bb, v):
        for m in self.monitors:
            f = getattr(m, 'construct', None)
            if f:
                f(self, st, ctx, bb, v)

    def cast(self, st, ctx, rv, ty):
        kind = rv[1]
        v = self.operand(st, ctx, rv[2])
        to = rv[3]
        frm = rv[4]
        P = self.P
        if kind == 'IntToInt':
            if isinstance(v, bool):
                return const(1 if v else 0)
            if is_pred(v):
                d = st.decide(v)
                if d is not None:
                    return const(1 if d else 0)
                return lin(atom(('b2i', v), 0, 1))
            if isinstance(v, tuple):      # fieldless enum
                v = self.discr(st, v)
            if not P.is_int(to):
                return v
            lo, hi = P.irange(to)
            r = st.rng(v)
            if r[0] >= lo and r[1] <= hi:
                return v
            if st.prove(addc(v, -lo)) and st.prove(sub(const(hi), v)):
                return v
            if not v.t:
                x = v.c & (hi - lo)
                if x > hi:
                    x -= (hi - lo + 1)
                return const(x)
            t = lin(atom(('trunc', v, lo, hi), lo, hi))
            if lo == 0 and r[0] >= 0:
                st.assume(p_ge(sub(v, t)))
            return t
        if kind.startswith('PointerCoercion(Unsize'):
            tt = P.types[to]
            if tt['k'] in ('ref', 'ptr') and P.kind(tt['t']) in ('slice', 'str') and isinstance(v, tuple) and v[0] == 'R':
                c = self.get(st, v[1], v[2])
                return ('SL', v[1], v[2], const(0), self.seq_len(c) or const(0))
            if tt['k'] == 'adt' and tt['p'] == 'alloc::boxed::Box' and isinstance(v, tuple) and v[0] == 'R':
                c = self.get(st, v[1], v[2])
                if c[0] == 'Q':
                    return c
            return v
        if kind == 'FloatToInt':
            lo, hi = P.irange(to)
            x = fl_const(v)
            if x is not None and x == x:
                return const(int(max(min(x, float(hi)), float(lo))) if abs(x) < 1e15 else (int(hi) if x > 0 else int(lo)))
            return lin(atom(('f2i', vkey(v)), lo, hi))
        if kind == 'IntToFloat' or kind == 'FloatToFloat':
            return ('FL', nm(('i2f', vkey(v))))
        return v if not P.is_int(to) else self.mk_opaque(nm(('cast', kind, vkey(v))), to, st)

    def binop(self, st, ctx, op, l, r, oty, ty, site):
        a = self.operand(st, ctx, l)
        b = self.operand(st, ctx, r)
        return self.bin_vals(st, op, a, b, oty, ty)

    def bin_vals(self, st, op, a, b, oty, ty):
        P = self.P
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, Lin) and isinstance(b, Lin):
                if op == 'Eq':
                    return p_eq(sub(a, b))
                if op == 'Ne':
                    return p_ne(sub(a, b))
                if op == 'Lt':
                    return p_ge(addc(sub(b, a), -1))
                if op == 'Le':
                    return p_ge(sub(b, a))
                if op == 'Gt':
                    return p_ge(addc(sub(a, b), -1))
                return p_ge(sub(a, b))
            if is_pred(a) and is_pred(b):
                if isinstance(b, bool):
                    a, b = b, a
                if isinstance(a, bool):
                    if op == 'Eq':
                        return b if a else p_not(b)
                    if op == 'Ne':
                        return p_not(b) if a else b
                if op in ('Eq', 'Ne'):
                    e = p_or(p_and(a, b), p_and(p_not(a), p_not(b)))
                    return e if op == 'Eq' else p_not(e)
            return ('b', atom((op, vkey(a), vkey(b)), 0, 1))
        if is_pred(a) and is_pred(b):
            if op == 'BitAnd':
                return p_and(a, b)
            if op == 'BitOr':
                return p_or(a, b)
            if op == 'BitXor':
                return p_or(p_and(a, p_not(b)), p_and(p_not(a), b))
        if P.kind(oty) == 'float':
            return ('FL', nm((op, vkey(a), vkey(b))))
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            t = ty
            if op.endswith('WithOverflow'):
                base = P.types[ty]['a'][0]
                x = self.mk_opaque(nm((op, vkey(a), vkey(b))), base, st)
                return ('T', (x, ('b', atom((op, 'ov', vkey(a), vkey(b)), 0, 1))))
            return self.mk_opaque(nm((op, vkey(a), vkey(b))), t, st)
        lo, hi = P.irange(oty) if P.is_int(oty) else (NEG, POS)
        base = op
        ov = False
        for suf in ('WithOverflow', 'Unchecked'):
            if op.endswith(suf):
                base = op[:-len(suf)]
                ov = suf == 'WithOverflow'
        if base in ('Add', 'Sub', 'Mul'):
            r = add(a, b) if base == 'Add' else sub(a, b) if base == 'Sub' else mul(a, b)
            inr = p_and(p_ge(addc(r, -lo)), p_ge(sub(const(hi), r)))
            if ov:
                bad = p_not(inr)
                if bad is not False and bad is not True:
                    # drop the side that cannot happen so that the fact stays simple
                    a1 = p_ge(addc(r, -lo))
                    a2 = p_ge(sub(const(hi), r))
                    if st.implies(a1):
                        bad = p_not(a2)
                    elif st.implies(a2):
                        bad = p_not(a1)
                return ('T', (r, bad))
            if op.endswith('Unchecked') or st.implies(inr):
                return r
            return lin(atom(('wrap', base, a, b, lo, hi), lo, hi))
        if base == 'Div':
            if not b.t and b.c > 0 and lo == 0:
                if not a.t:
                    return const(a.c // b.c)
                if b.c == 1:
                    return a
                if all(k % b.c == 0 for _, k in a.t) and a.c % b.c == 0:
                    return mk(a.c // b.c, tuple((x, k // b.c) for x, k in a.t))
                r = st.rng(a)
                q = lin(atom(('div', a, b), max(0, r[0] // b.c) if r[0] != NEG else 0, hi // b.c))
                st.add_ge(sub(a, scale(q, b.c)))
                st.add_ge(addc(sub(add(scale(q, b.c), const(b.c)), a), -1))
                return q
            if lo == 0:
                q = lin(atom(('div', a, b), 0, hi))
                if st.prove(addc(b, -1)):
                    m = mul(q, b)
                    rem = lin(atom(('rem', a, b), 0, hi))
                    e = sub(sub(a, m), rem)
                    st.add_ge(e)
                    st.add_ge(scale(e, -1))
                    st.add_ge(addc(sub(b, rem), -1))
                    st.add_ge(sub(a, q))
                    if self.late_bounds and st.prove(sub(a, b)):
                        st.add_ge(addc(q, -1))
                return q
            return lin(atom(('div', a, b), lo, hi))
        if base == 'Rem':
            if not a.t and not b.t and b.c > 0 and a.c >= 0:
                return const(a.c % b.c)
            if lo == 0:
                if not b.t and b.c > 0:
                    return lin(atom(('rem', a, b), 0, b.c - 1))
                q = lin(atom(('div', a, b), 0, hi))
                rem = lin(atom(('rem', a, b), 0, hi))
                if st.prove(addc(b, -1)):
                    e = sub(sub(a, mul(q, b)), rem)
                    st.add_ge(e)
                    st.add_ge(scale(e, -1))
                    st.add_ge(addc(sub(b, rem), -1))
                return rem
            return lin(atom(('rem', a, b), lo, hi))
        if base == 'BitAnd':
            if not a.t and not b.t:
                return const((a.c & b.c) if a.c >= 0 and b.c >= 0 else (a.c & b.c))
            if not a.t:
                a, b = b, a
            if not b.t and b.c >= 0:
                if b.c == 0:
                    return const(0)
                r = st.rng(a)
                m = b.c
                if r[0] >= 0 and (m & (m + 1)) == 0 and r[1] <= m:
                    return a
                # bits below the lowest set bit of every coefficient
                if r[0] >= 0 and a.c >= 0:
                    z = None
                    for _, k in a.t:
                        lowb = k & -k
                        z = lowb if z is None else min(z, lowb)
                    if z is not None and m < z:
                        return const(a.c & m)
                u = r[1] if r[1] < POS and r[1] >= 0 else m
                return lin(atom(('and', a, b), 0, min(m, u) if r[0] >= 0 else m))
            ra, rb = st.rng(a), st.rng(b)
            if ra[0] >= 0 and rb[0] >= 0:
                return lin(atom(('and', a, b), 0, min(ra[1], rb[1])))
            return lin(atom(('and', a, b), lo, hi))
        if base == 'BitOr' or base == 'BitXor':
            if not a.t and not b.t:
                return const((a.c | b.c) if base == 'BitOr' else (a.c ^ b.c))
            if not a.t and a.c == 0:
                return b
            if not b.t and b.c == 0:
                return a
            ra, rb = st.rng(a), st.rng(b)
            for x, y, ry in ((a, b, rb), (b, a, ra)):
                # disjoint bits -> addition
                z = 0
                for _, k in x.t:
                    z |= abs(k) & -abs(k)
                z |= x.c
                lowb = z & -z if z else 0
                if x.t and min([(abs(k) & -abs(k)) for _, k in x.t] + ([x.c & -x.c] if x.c else [])) > ry[1] and ry[0] >= 0 \
                        and (ra[0] >= 0 and rb[0] >= 0):
                    return add(x, y)
            if ra[0] >= 0 and rb[0] >= 0 and ra[1] < POS and rb[1] < POS:
                m = max(int(ra[1]), int(rb[1]))
                top = (1 << m.bit_length()) - 1
                return lin(atom((base.lower(), a, b), max(ra[0], rb[0]) if base == 'BitOr' else 0, min(top, hi)))
            return lin(atom((base.lower(), a, b), lo, hi))
        if base == 'Shl':
            if not b.t:
                r = scale(a, 1 << b.c)
                rr = st.rng(r)
                if rr[0] >= lo and rr[1] <= hi:
                    return r
                if not r.t:
                    x = r.c & (hi - lo)
                    return const(x - (hi - lo + 1) if x > hi else x)
                return lin(atom(('shl', a, b, lo, hi), lo, hi))
            return lin(atom(('shl', a, b, lo, hi), lo, hi))
        if base == 'Shr':
            if not b.t:
                if not a.t:
                    return const(a.c >> b.c)
                r = st.rng(a)
                if r[0] >= 0 and r[1] < POS:
                    z = 1 << b.c
                    if all(k % z == 0 for _, k in a.t) and 0 <= a.c:
                        return mk(a.c // z, tuple((x, k // z) for x, k in a.t))
                    return lin(atom(('shr', a, b), int(r[0]) >> b.c, int(r[1]) >> b.c))
            return lin(atom(('shr', a, b), lo, hi))
        if base == 'Cmp':
            r = ('E', ty, lin(atom(('cmp', a, b), -1, 1)), tuple((i, ()) for i in range(3)))
            d = sub(a, b)
            if st.implies(p_ge(addc(d, -1))):
                return self.mk_enum(ty, 2, ())
            if st.implies(p_ge(addc(scale(d, -1), -1))):
                return self.mk_enum(ty, 0, ())
            if st.implies(p_eq(d)):
                return self.mk_enum(ty, 1, ())
            return r
        return self.mk_opaque(nm((op, vkey(a), vkey(b))), ty, st)

    # ------------------------------------------------------------ switch refinement
    def refine_eq(self, st, v, c):
        """assume v == c (v int/bool/discr)"""
        if isinstance(v, bool):
            return v == bool(c)
        if isinstance(v, Lin):
            if not st.assume(p_eq(addc(v, -c))):
                return False
            return self.after_eq(st, v, c)
        if is_pred(v):
            return st.assume(v if c else p_not(v))
        return True

    def after_eq(self, st, v, c):
        # cmp atoms carry the order of their operands
        if len(v.t) == 1:
            a = v.t[0][0]
            if a.key[0] == 'cmp':
                d = sub(a.key[1], a.key[2])
                if c == -1:
                    return st.assume(p_ge(addc(scale(d, -1), -1)))
                if c == 0:
                    return st.assume(p_eq(d))
                return st.assume(p_ge(addc(d, -1)))
            if a.key[0] == 'b2i':
                return st.assume(a.key[1] if c else p_not(a.key[1]))
        return True

    def refine_ne(self, st, v, c):
        if isinstance(v, bool):
            return v != bool(c)
        if isinstance(v, Lin):
            return st.assume(p_ne(addc(v, -c)))
        if is_pred(v):
            return st.assume(p_not(v) if c else v)
        return True

    # ------------------------------------------------------------ obligations and events
    def site(self, ctx, bb):
        """innermost frame that belongs to the crate: (fn, bb)"""
        c = ctx
        b = bb
        while c is not None:
            if c.fn.local:
                return c.fn, b[0] if isinstance(b, tuple) else b
            b = c.bb
            c = c.parent
        return ctx.fn, bb

    def site_span(self, fn, bb):
        while isinstance(bb, tuple):
            bb = bb[0]
        t = fn.blocks[bb]['t']
        for x in reversed(t):
            if isinstance(x, list) and len(x) >= 2 and isinstance(x[0], int) and isinstance(x[1], int) and len(x) in (2, 4):
                return self.P.span(x)
        return '?'

    def stack(self, ctx, bb):
        r = []
        c, b = ctx, bb
        while c is not None:
            if c.fn.local:
                r.append('%s (%s)' % (short(c.fn.p), self.site_span(c.fn, b)))
            b = c.bb
            c = c.parent
        return r

    def oblige(self, ctx, bb, kind, ok, detail='', st=None, lins=()):
        if self.quiet:
            return
        fn, b = self.site(ctx, bb)
        key = (fn.p, b, kind)
        o = self.obl.get(key)
        if o is None:
            o = self.obl[key] = {'n': 0, 'bad': 0, 'und': 0, 'detail': None, 'span': self.site_span(fn, b), 'stack': None,
                                 'root': self.root}
        o['n'] += 1
        if not ok and (any(tainted(x) for x in lins) or (st is not None and not lins and st_tainted(st))):
            o['und'] += 1
            return
        if not ok:
            o['bad'] += 1
            if o['detail'] is None:
                o['detail'] = detail
                o['stack'] = self.stack(ctx, bb)

    def emit(self, st, c, kind, **kw):
        self.stats['events'] += 1
        ev = Event(kind, c, kw)
        for m in self.monitors:
            m.event(self, st, ev)
        return ev

    # ------------------------------------------------------------ functions
    def run_fn(self, fn, args, st=None, parent=None, bb=0):
        if st is None:
            st = State()
        ctx = parent.kid(bb, fn) if parent else Ctx(None, None, fn)
        return self.exec_fn(ctx, args, st)

    def exec_fn(self, ctx, args, st):
        """run a function body; results are memoised on the part of the state it can reach"""
        if ctx.parent is None or len(ctx.fn.blocks) < 8 or not self.use_memo:
            return self.exec_body(ctx, args, st)
        m = st.mem
        keep = set(k for k in m if k[0] == 's')
        for k in list(keep):
            self.reach(m, [m[k]], keep)
        self.reach(m, list(args), keep)
        loc = State()
        live = set()
        for k, v in m.items():
            if k in keep or (k[0] == 'n' and not k[1].orig):
                loc.mem[k] = v
                tm.collect(v, live)
                if k[0] == 'n':
                    live.add(k[1])
        tm.collect(args, live)
        tm.collect(st.locks, live)
        for v in st.mon.values():
            tm.collect(v, live)
        memo = {}

        def alive(a):
            r = memo.get(a)
            if r is None:
                r = memo[a] = a in live or not a.orig or not tm.parts(a).isdisjoint(live)
            return r
        loc.ivl = {a: r for a, r in st.ivl.items() if alive(a)}
        loc.lins = {t: c for t, c in st.lins.items() if all(alive(a) for a, _ in t)}
        loc.nes = frozenset(l for l in st.nes if all(alive(a) for a, _ in l.t)) if st.nes else st.nes
        loc.bools = {a: b for a, b in st.bools.items() if not isinstance(a, tm.Atom) or alive(a)}
        loc.mon = st.mon
        loc.locks = st.locks
        key = (ctx, tuple(args), frozenset(loc.mem.items()), frozenset(loc.ivl.items()), frozenset(loc.lins.items()),
               loc.nes, frozenset(loc.bools.items()), fz(st.mon), st.locks)
        res = self.fmemo.get(key)
        self.stats['mq'] = self.stats.get('mq', 0) + 1
        if res is None:
            inmem = set(loc.mem)
            s1 = loc.copy()
            res = [(s.copy(), v) for s, v in self.exec_body(ctx, list(args), s1)]
            self.fmemo[key] = res
        else:
            self.stats['mh'] = self.stats.get('mh', 0) + 1
        out = []
        for s, v in res:
            n = State()
            n.mem = {k: x for k, x in m.items() if k not in loc.mem}
            n.mem.update(s.mem)
            n.ivl = dict(st.ivl)
            n.ivl.update(s.ivl)
            n.lins = dict(st.lins)
            n.lins.update(s.lins)
            n.nes = st.nes | s.nes
            n.bools = dict(st.bools)
            n.bools.update(s.bools)
            n.mon = dict(s.mon)
            n.locks = s.locks
            out.append((n, v))
        return out

    use_memo = True

    def exec_body(self, ctx, args, st):
        fn = self.P.prep(ctx.fn)
        self.stats['calls'] += 1
        self.stats['fns'].add(fn.id)
        for i, v in enumerate(args):
            st.mem[('l', ctx, i + 1)] = v
        pending = {0: [st]}
        rets = []
        self.run_items(ctx, fn.wto, pending, rets)
        out = []
        for s in rets:
            r = s.mem.get(('l', ctx, 0), UNIT)
            m = s.mem
            dead = [k for k in m if k[0] == 'l' and k[1] is ctx]
            for k in dead:
                del m[k]
            s.mem[('l', ctx, 0)] = r
            out.append(s)
        out = self.merge(ctx, out, None, 'ret')
        res = []
        for s in out:
            r = s.mem.pop(('l', ctx, 0), UNIT)
            res.append((s, r))
        return res

    def run_items(self, ctx, items, pending, rets):
        for it in items:
            if isinstance(it, tuple):
                self.run_loop(ctx, it, pending, rets)
            else:
                sts = pending.pop(it, None)
                if sts:
                    self.run_block(ctx, it, self.merge(ctx, sts, it), pending, rets)

    def run_block(self, ctx, bb, sts, pending, rets):
        fn = ctx.fn
        blk = fn.blocks[bb]
        for st in sts:
            self.stats['blocks'] += 1
            if self.stats['blocks'] > self.limit_blocks:
                raise Abort('block budget exhausted')
            ok = True
            self.cur = (fn.p, bb)
            for si, s in enumerate(blk['s']):
                k = s[0]
                if k == '=':
                    v = self.rvalue(st, ctx, s[2], s[4], bb, si)
                    loc, proj = self.place(st, ctx, s[1])
                    if proj:
                        self.put(st, loc, proj, v)
                    else:
                        st.mem[loc] = v
                elif k == 'dead':
                    st.mem.pop(('l', ctx, s[1]), None)
                elif k == 'assume':
                    v = self.operand(st, ctx, s[1])
                    if is_pred(v) and not st.assume(v):
                        ok = False
                        break
                elif k == 'sd':
                    loc, proj = self.place(st, ctx, s[1])
                    v = self.get(st, loc, proj)
                    if v[0] == 'O':
                        v = self.expand(st, v)
                    if v[0] == 'E':
                        d = self.P.types[v[1]]['v'][s[2]]['d']
                        self.put(st, loc, proj, ('E', v[1], const(d), v[3]))
            if not ok:
                continue
            self.terminator(ctx, bb, blk['t'], st, pending, rets)

    def push(self, pending, b, st):
        pending.setdefault(b, []).append(st)

    def terminator(self, ctx, bb, t, st, pending, rets):
        k = t[0]
        if k == 'goto':
            self.push(pending, t[1], st)
        elif k == 'switch':
            v = self.operand(st, ctx, t[1])
            targets = t[2]
            if isinstance(v, Lin) and not v.t:
                for c, b in targets:
                    if norm_c(self.P, t[4], c) == v.c:
                        self.push(pending, b, st)
                        return
                if t[3] is not None:
                    self.push(pending, t[3], st)
                return
            for c, b in targets:
                s2 = st.copy()
                if self.refine_eq(s2, v, norm_c(self.P, t[4], c)):
                    self.push(pending, b, s2)
            if t[3] is not None and ctx.fn.blocks[t[3]] is not None and ctx.fn.blocks[t[3]]['t'][0] != 'unreach':
                s2 = st
                for c, b in targets:
                    if not self.refine_ne(s2, v, norm_c(self.P, t[4], c)):
                        return
                self.push(pending, t[3], s2)
        elif k == 'ret':
            rets.append(st)
        elif k == 'unreach':
            pass
        elif k == 'drop':
            for s in self.do_drop(ctx, bb, t, st):
                self.push(pending, t[2], s)
        elif k == 'assert':
            self.do_assert(ctx, bb, t, st, pending)
        elif k == 'call':
            self.do_call(ctx, bb, t, st, pending)
        elif k == 'yield':
            c = self.mkcall(ctx, bb, {}, [], None, t[4] if len(t) > 4 else None, 'yield')
            self.emit(st, c, 'yield')
        elif k == 'unwind':
            pass
        else:
            raise Abort('terminator ' + k)

    def do_assert(self, ctx, bb, t, st, pending):
        v = self.operand(st, ctx, t[1])
        exp = t[2]
        if not is_pred(v):
            self.push(pending, t[5], st)
            return
        good = v if exp else p_not(v)
        ok = st.implies(good)
        kind = t[3]
        detail = ''
        if not ok:
            if self.assert_exempt(ctx, bb, t, st):
                ok = True
            else:
                ops = [self.operand_peek(st, ctx, o) for o in t[4]]
                detail = '%s: %s' % (kind, ', '.join(self.vs(st, o) for o in ops))
        self.oblige(ctx, bb, 'assert:' + kind, ok, detail, lins=(good,))
        if st.assume(good):
            self.push(pending, t[5], st)

    def assert_exempt(self, ctx, bb, t, st):
        """x + <small constant> on a counter of at least 32 bits the crate keeps itself: wrap-around needs 2^31 events"""
        if t[3] != 'overflow_Add':
            return False
        ops = t[4]
        a = self.operand_peek(st, ctx, ops[0])
        b = self.operand_peek(st, ctx, ops[1])
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            return False
        if a.t and b.t or not a.t and not b.t:
            return False
        k, x = (a, b) if b.t else (b, a)
        if not 0 <= k.c <= 16 or self.is_wire(x):
            return False
        wty = None
        for s in ctx.fn.blocks[bb]['s']:
            if s[0] == '=' and s[2][0] == 'bin' and s[2][1] == 'AddWithOverflow':
                wty = s[2][4]
        return wty is not None and self.P.ts(wty) not in ('u8', 'u16', 'i8', 'i16')

    def operand_peek(self, st, ctx, o):
        if o[0] in ('c', 'm'):
            return self.read_place(st, ctx, o[1])
        return self.constant(st, o[1])

    def vs(self, st, v):
        if isinstance(v, Lin):
            r = st.rng(v)
            return '%s in [%s,%s]' % (lin_str(v), r[0], r[1])
        return str(v)[:120]

    # ---- drops
    def do_drop(self, ctx, bb, t, st):
        loc, proj = self.place(st, ctx, t[1])
        v = self.get(st, loc, proj)
        if v == U or is_scalar(v):
            return [st]
        ty = t[3]
        c = self.mkcall(ctx, bb, {}, [], None, t[4] if len(t) > 4 else None, 'drop')
        sts = [st]
        self.drop_value(st, c, v, ty, loc, proj, sts)
        for s in sts:
            self.put(s, loc, proj, U)
        return sts

    def drop_value(self, st, c, v, ty, loc, proj, sts):
        if not isinstance(v, tuple) or v == U:
            return
        tag = v[0]
        if tag == 'G':
            for s in sts:
                self.release(s, c, v)
            return
        t = self.P.types[ty] if ty is not None else None
        if t and t.get('drop') is not None:
            f = self.P.fns[t['drop']]
            if f.blocks is not None:
                out = []
                for s in sts:
                    self.emit(s, c, 'dropimpl', ty=ty, val=v)
                    for s2, _ in self.exec_fn(c.ctx.kid(c.bb, f), [('R', loc, flat(proj))], s):
                        out.append(s2)
                sts[:] = out
        if t and t['k'] == 'adt' and t['p'] in DROPEV:
            for s in sts:
                self.emit(s, c, 'drop', path=t['p'], val=v)
        if tag in ('S', 'C') and t:
            fts = self.field_types(ty)
            for i, x in enumerate(v[2]):
                if isinstance(x, tuple) and x[0] in DROPTAGS and i < len(fts):
                    self.drop_value(st, c, x, fts[i], loc, proj + (('f', i, fts[i]),), sts)
        elif tag == 'T' and t and t['k'] == 'tuple':
            for i, x in enumerate(v[1]):
                if isinstance(x, tuple) and x[0] in DROPTAGS and i < len(t['a']):
                    self.drop_value(st, c, x, t['a'][i], loc, proj + (('f', i, t['a'][i]),), sts)
        elif tag == 'E' and t and t.get('v'):
            for vi, pl in v[3]:
                if is_const(v[2]) and t['v'][vi]['d'] != v[2].c:
                    continue
                for i, x in enumerate(pl):
                    if isinstance(x, tuple) and x[0] in DROPTAGS:
                        ft = t['v'][vi]['f'][i][1]
                        self.drop_value(st, c, x, ft, loc, proj + (('v', vi, i, ft),), sts)

    def field_types(self, ty):
        t = self.P.types[ty]
        if t['k'] in ('closure', 'coroutine'):
            return t['u']
        if t['k'] == 'adt' and t.get('v'):
            return [f[1] for f in t['v'][0]['f']]
        if t['k'] == 'tuple':
            return t['a']
        return []

    def release(self, st, c, g):
        st.locks = tuple(x for x in st.locks if x[2] != g[1])
        cl = g[4]
        self.publish(st, cl)
        self.emit(st, c, 'unlock', lock=g[3], mode=g[2], content=cl)

    # ---- calls
    def mkcall(self, ctx, bb, obj, args, dty, span, name):
        c = Call()
        c.E = self
        c.ctx = ctx
        c.bb = bb
        c.obj = obj
        c.args = args
        c.dty = dty
        c.span = span
        c.name = name
        c.tag = 0
        return c

    def do_call(self, ctx, bb, t, st, pending):
        obj = t[1]
        args = [self.operand(st, ctx, o) for o in t[2]]
        dty = t[6]
        if 'dynf' in obj:
            fv = self.operand(st, ctx, obj['dynf'])
            res = self.call_value(ctx, bb, st, fv, args, dty, t[5])
        else:
            c = self.mkcall(ctx, bb, obj, args, dty, t[5], obj.get('rp') or obj.get('p'))
            c.argops = t[2]
            res = self.call(c, st)
        if t[4] is None:
            return
        for s, v in res:
            loc, proj = self.place(s, ctx, t[3])
            self.put(s, loc, proj, v)
            self.push(pending, t[4], s)

    def call_value(self, ctx, bb, st, fv, args, dty, span):
        """call a closure/fn item value with already untupled args"""
        if isinstance(fv, tuple) and fv[0] == 'F':
            t = self.P.types[fv[1]]
            obj = t.get('c') or t.get('call')
            if obj:
                return self.call(self.mkcall(ctx, bb, obj, args, dty, span, obj.get('rp') or obj.get('p')), st)
        return [(st, self.mk_opaque(nm(('dyncall', ctx.chain, ctx.fn.id, bb), ctx.chain + ((ctx.fn.id, bb),)), dty, st))]

    def call(self, c, st):
        obj = c.obj
        rp = obj.get('rp')
        m = self.models.get(rp) or self.models.get(obj.get('p'))
        if m is not None:
            r = m(self, st, c)
            if r is None:
                return []
            if isinstance(r, list):
                return r
            return [(st, r)]
        if obj.get('ctor'):
            return [(st, self.do_ctor(c))]
        i = obj.get('i')
        if i is None:
            i = obj.get('df')
        if i is not None and self.P.fns[i].blocks is not None:
            fn = self.P.fns[i]
            return self.inline(c, st, fn, obj)
        return self.unknown_call(c, st)

    def do_ctor(self, c):
        t = self.P.types[c.dty]
        if t.get('ak') == 'enum':
            name = (c.obj.get('p') or '').split('::')[-1]
            for vi, v in enumerate(t['v']):
                if v['n'] == name:
                    return self.mk_enum(c.dty, vi, c.args)
        return ('S', c.dty, tuple(c.args))

    def inline(self, c, st, fn, obj):
        ctx = c.ctx
        if ctx.fns.count(fn.id) >= 3 or len(ctx.fns) > 70:
            return self.unknown_call(c, st, why='recursion')
        args = list(c.args)
        if obj.get('shim') == 'once' and args:
            loc = ('h', c.fresh('once'))
            st.mem[loc] = args[0]
            args[0] = ('R', loc, ())
        d = fn.d
        if d.get('cor'):
            # body of an async fn: poll == run to completion
            return self.poll_coroutine(c, st, fn, args)
        if len(args) != fn.argc and len(args) == 2 and isinstance(args[1], tuple) and args[1][0] == 'T' \
                and fn.argc == 1 + len(args[1][1]):
            args = [args[0]] + list(args[1][1])
        self.stats['inst'] += 1
        if fn.id in self.summ:
            return self.summarise(c, st, fn, args)
        if fn.id in self.watch:
            self.emit(st, c, 'call', fn=fn, args=args)
        k = ctx.kid(c.bb if not c.tag else (c.bb, c.tag), fn)
        n0 = len(st.lins)
        r = self.exec_fn(k, args, st)
        for s, v in r:
            if len(s.lins) > n0 + 6:
                s.mem[('l', RET, 0)] = v
                self.gc(s)
                del s.mem[('l', RET, 0)]
        return r

    def summarise(self, c, st, fn, args):
        vals, key = [], []
        for i, a in enumerate(args):
            ty = fn.locals[i + 1][0]
            t = self.P.types[ty]
            if t['k'] == 'ref' and t['m']:
                vals.append(None)
                key.append(a)
            elif isinstance(a, tuple) and a[0] in ('R', 'SL'):
                v = self.get(st, a[1], a[2])
                if a[0] == 'SL' and isinstance(v, tuple) and v[0] == 'Q':
                    v = self.seq_slice(st, v, a[3], a[4])
                vals.append(v)
                key.append(v)
            else:
                vals.append(a)
                key.append(a)
        k = (fn.id, tuple(key))
        i = self.sums.get(k)
        if i is None:
            site = (fn.id, c.fresh('ret'))
            here = self.sumsites.setdefault(site, [])
            if len(here) < 4:
                i = len(self.sumargs)
                here.append(i)
                self.sumargs.append((fn, tuple(vals), tuple(args)))
            else:
                # one name for all further calls here, so that a loop over ever new arguments comes to an end
                i = here[-1]
                f0, v0, a0 = self.sumargs[i]
                self.sumargs[i] = (fn, tuple(x if x is y or x == y else None for x, y in zip(v0, vals)),
                                   tuple(x if x is y or x == y else None for x, y in zip(a0, args)))
            self.sums[k] = i
        for j, a in enumerate(args):
            t = self.P.types[fn.locals[j + 1][0]]
            if t['k'] == 'ref' and t['m'] and isinstance(a, tuple) and a[0] == 'R':
                self.put(st, a[1], a[2], self.havoc_val(st, self.get(st, a[1], a[2]), nm((c.fresh('eff'), ('eff', i, j)))))
        ret = self.mk_opaque(nm((c.fresh('ret'), ('call', i))), c.dty if c.dty is not None else fn.locals[0][0], st)
        self.emit(st, c, 'sum', fn=fn, args=args, vals=vals, ret=ret)
        return [(st, ret)]

    def poll_coroutine(self, c, st, fn, args):
        pin = args[0]
        r = self.unpin(st, pin)
        loc, proj = r
        v = self.get(st, loc, proj)
        if v == U:
            return []
        if v[0] == 'O':
            v = self.expand(st, v)
        self.put(st, loc, proj, U)
        k = c.ctx.kid(c.bb if not c.tag else (c.bb, c.tag), fn)
        res = self.exec_fn(k, [v, args[1] if len(args) > 1 else UNIT], st)
        out = []
        for s, rv in res:
            out.append((s, self.mk_enum(c.dty, 0, (rv,))))
        return out

    def unpin(self, st, pin):
        v = pin
        for _ in range(4):
            if isinstance(v, tuple) and v[0] == 'S' and len(v[2]) == 1:
                v = v[2][0]
        if isinstance(v, tuple) and v[0] == 'R':
            return v[1], v[2]
        return ('n', nm(('badpin', vkey(v)))), ()

    def unknown_call(self, c, st, why='external'):
        name = c.obj.get('rp') or c.obj.get('p') or '?'
        u = self.unknown.setdefault(name, {'n': 0, 'why': why, 'site': short(self.site(c.ctx, c.bb)[0].p)})
        u['n'] += 1
        for j, a in enumerate(c.args):
            self.havoc_arg(st, c, a, j)
        self.emit(st, c, 'unknown', path=name)
        if c.dty is not None and self.P.kind(c.dty) == 'never':
            return []
        return [(st, c.opq(st, c.dty, 'unk'))]

    def havoc_arg(self, st, c, a, j):
        ops = getattr(c, 'argops', None)
        ty = None
        if ops and j < len(ops) and ops[j][0] in ('c', 'm'):
            ty = self.place_ty(c.ctx, ops[j][1])
        self.havoc_deep(st, c, a, ty, (j,), 0)

    def havoc_deep(self, st, c, a, ty, path, depth):
        """forget what an unknown callee may change through the references in a value"""
        if depth > 4 or not isinstance(a, tuple) or not a:
            return
        t = self.P.types[ty] if ty is not None else None
        if a[0] in ('R', 'SL'):
            if t is not None and t['k'] == 'ref' and not t['m']:
                return
            old = self.get(st, a[1], a[2])
            if isinstance(old, tuple) and old and old[0] in ('R', 'SL', 'IT') and depth < 4:
                self.havoc_deep(st, c, old, t['t'] if t is not None and t['k'] == 'ref' else None, path + ('*',), depth + 1)
                if old[0] != 'IT':
                    return
            n = c.fresh('havoc' + '.'.join(map(str, path)))
            self.put(st, a[1], a[2], self.havoc_val(st, old, n))
        elif a[0] == 'C':
            us = self.P.types[a[1]].get('u') or []
            for i, x in enumerate(a[2]):
                if isinstance(x, tuple):
                    self.havoc_deep(st, c, x, us[i] if i < len(us) else None, path + (i,), depth + 1)
        elif a[0] == 'IT' and len(a) > 2 and isinstance(a[2], tuple):
            # through an iterator that hands out mutable references
            if t is None or 'Mut' in self.P.ts(ty) or t['k'] == 'ref':
                if t is None or t['k'] != 'adt' or 'Mut' in self.P.ts(ty):
                    self.havoc_deep(st, c, a[2], None, path + ('it',), depth + 1)
        elif a[0] == 'T':
            for i, x in enumerate(a[1]):
                if isinstance(x, tuple):
                    self.havoc_deep(st, c, x, t['a'][i] if t is not None and t['k'] == 'tuple' and i < len(t['a']) else None, path + (i,), depth + 1)
        elif a[0] == 'S' and len(a) > 2:
            tt = self.P.types[a[1]]
            fs = tt['v'][0]['f'] if tt.get('v') else []
            for i, x in enumerate(a[2]):
                if isinstance(x, tuple):
                    self.havoc_deep(st, c, x, fs[i][1] if i < len(fs) else None, path + (i,), depth + 1)

    def havoc_val(self, st, v, n):
        if isinstance(v, Lin):
            return lin(atom(('o', n), NEG, POS))
        if is_pred(v):
            return ('b', atom(('o', n), 0, 1))
        tag = v[0]
        if tag in ('S', 'O', 'E', 'C'):
            ty = v[2] if tag == 'O' else v[1]
            return ('O', n, ty)
        if tag == 'Q':
            return ('Q', (('sub', n, const(0), self.len_atom(n)),), ())
        if tag == 'M':
            return ('M', n, (), (), self.len_atom(n))
        if tag == 'T':
            return ('T', tuple(self.havoc_val(st, x, child(n, i)) for i, x in enumerate(v[1])))
        return v

    def place_ty(self, ctx, pl):
        if not pl[1]:
            return ctx.fn.locals[pl[0]][0]
        last = pl[1][-1]
        if last[0] == 'f':
            return last[2]
        return None

    # ------------------------------------------------------------ publication of shared state (invariants)
    def publish(self, st, loc):
        v = st.mem.get(loc)
        if v is not None:
            ty = self.ptype.get(loc)
            inv = loc[1].inv if isinstance(loc[1], Nm) else None
            self.record(st, v, inv, ty, set())

    def wire_of(self, a):
        """(comes from a datagram or from the caller of the public API, keys of the state it was read from)"""
        r = self.wire.get(a)
        if r is not None:
            return r
        self.wire[a] = (False, frozenset())
        w, d = False, set()
        if a.inv is not None:
            d.add(a.inv)
        elif a.key[0] != 'phi':
            for x in tm.parts(a):
                if isinstance(x, Nm):
                    if x.inv is not None:
                        d.add(x.inv)
                    elif x.key and (x.key[0] == 'arg' or 'datagram' in [y for y in x.key if isinstance(y, str)]):
                        w = True
                elif isinstance(x, Atom) and x is not a:
                    w2, d2 = self.wire_of(x)
                    w, d = w or w2, d | d2
        r = self.wire[a] = (w, frozenset(d))
        return r

    def wire_lin(self, v):
        w, d = False, set()
        for a, _ in v.t:
            w2, d2 = self.wire_of(a)
            w = w or w2
            d |= d2
        return w, d

    def is_wire(self, v):
        w, d = self.wire_lin(v)
        return w or any(k in tm.T.invw for k in d)

    def look(self, key):
        r = tm.T.inv.get(key)
        if r is not None or not self.bot:
            return r
        r = self.botmemo.get(key, 0)
        if r != 0:
            return r
        if key in self.rec:
            r = tm.T.inv[key] = self.rec[key]
            self.changed.add(key)
            return r
        seen = False
        r = None
        for j in range(1, len(key)):
            pre = key[:j]
            if pre + ('poison',) in tm.T.inv:
                seen = False
                break
            if key[j] in ('m', 'e', 'k') and pre + ('seen',) in tm.T.inv:
                seen = True
        if seen:
            # kept in a container into which nothing of this kind is ever put
            r = ('bot',)
        self.botmemo[key] = r
        return r

    def mark(self, key, what):
        if key is None:
            return
        key = key + (what,)
        if key not in self.rec:
            self.rec[key] = ('s',)
            if what == 'poison' and self.bot and key not in tm.T.inv:
                tm.T.inv[key] = ('s',)
                self.changed.add(key)

    def bot_filled(self, key, v):
        if self.botmemo.get(key) is not None:
            del self.botmemo[key]
            tm.T.inv[key] = v
            self.changed.add(key)

    def rec_int(self, key, lo, hi, full=False):
        if key in self.assumed:
            return
        if not full:
            o = self.recg.get(key)
            self.recg[key] = ('i', lo, hi) if o is None else ('i', min(o[1], lo), max(o[2], hi))
        o = tm.T.inv.get(key)
        if o is not None and (lo < o[1] or hi > o[2]):
            # outside the assumed table: later reads of this round see the larger range, and there will be another round
            tm.T.inv[key] = ('i', min(lo, o[1]), max(hi, o[2]))
            self.changed.add(key)
        o = self.rec.get(key)
        if o is None:
            self.rec[key] = ('i', lo, hi)
            self.bot_filled(key, ('i', lo, hi))
        else:
            self.rec[key] = ('i', min(o[1], lo), max(o[2], hi))

    def rec_bool(self, key, b):
        if b is not None:
            o = self.recg.get(key)
            self.recg[key] = ('b', b if o is None or o[1] == b else None)
        o = tm.T.inv.get(key)
        if o is not None and o[1] is not None and b != o[1]:
            tm.T.inv[key] = ('b', None)
            self.changed.add(key)
        o = self.rec.get(key)
        if o is None:
            self.rec[key] = ('b', b)
            self.bot_filled(key, ('b', b))
        elif o[1] != b:
            self.rec[key] = ('b', None)

    def record(self, st, v, inv, ty, seen, depth=0):
        """v becomes visible to other parts of the program under key inv"""
        if depth > 12:
            self.mark(inv, 'poison')
            return
        if v is None:
            return
        if isinstance(v, Lin):
            if inv is None:
                return
            if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and v.t[0][0].inv == inv:
                return
            lo, hi = st.rng_tight(v)
            full = False
            if ty is not None and self.P.is_int(ty):
                a, b = self.P.irange(ty)
                full = hi - lo >= (b - a) - 64 or hi - lo >= 1 << 62
                lo, hi = max(lo, a), min(hi, b)
            self.rec_int(inv, lo, hi, full)
            w, d = self.wire_lin(v)
            if w:
                self.recw.add(inv)
            if d:
                self.recd.setdefault(inv, set()).update(d)
            return
        if is_pred(v):
            if inv is None:
                return
            if isinstance(v, tuple) and v[0] == 'b' and v[1].inv == inv:
                return
            d = st.decide(v)
            self.rec_bool(inv, d)
            return
        tag = v[0]
        if tag in ('FL', 'F', 'FU'):
            return
        if tag in ('R', 'SL', 'X', 'U'):
            self.mark(inv, 'poison')
            return
        if tag == 'A':
            loc = v[1]
            if loc in seen:
                return
            seen.add(loc)
            c = st.mem.get(loc)
            if c is not None:
                pin = loc[1].inv if isinstance(loc[1], Nm) else None
                self.record(st, c, pin, self.ptype.get(loc), seen, depth + 1)
            return
        t = self.P.types[ty] if ty is not None else None
        if tag == 'O':
            n = v[1]
            if n.inv == inv:
                return
            vt = self.P.types[v[2]]
            if vt['k'] == 'adt' and vt.get('l'):
                if vt.get('ak') == 'enum' and inv is not None:
                    r = st.rng(self.discr(st, v))
                    self.rec_int(inv + ('discr',), r[0], r[1])
                e = self.expand(st, v)
                base = self.inv_base(inv, vt['p'])
                if e[0] == 'S':
                    for i, x in enumerate(e[2]):
                        self.record(st, x, base + ('f', i), self.field_types(v[2])[i], seen, depth + 1)
                elif e[0] == 'E':
                    for vi, pl in e[3]:
                        for i, x in enumerate(pl):
                            self.record(st, x, base + ('v', vi, i), vt['v'][vi]['f'][i][1], seen, depth + 1)
                return
            if inv is None:
                return
            e = self.expand(st, v)
            if e[0] != 'O':
                self.record(st, e, inv, v[2], seen, depth + 1)
            else:
                self.mark(inv, 'poison')
            return
        if tag == 'S':
            vt = self.P.types[v[1]]
            fts = self.field_types(v[1])
            for i, x in enumerate(v[2]):
                if vt.get('l'):
                    k = self.inv_base(inv, vt['p']) + ('f', i)
                else:
                    k = inv + ('f', i) if inv is not None else None
                self.record(st, x, k, fts[i] if i < len(fts) else None, seen, depth + 1)
            return
        if tag == 'T' or tag == 'C':
            vals = v[1] if tag == 'T' else v[2]
            fts = (t['a'] if t and t['k'] == 'tuple' else self.field_types(v[1]) if tag == 'C' else [])
            for i, x in enumerate(vals):
                self.record(st, x, inv + ('f', i) if inv is not None else None, fts[i] if i < len(fts) else None, seen, depth + 1)
            return
        if tag == 'E':
            vt = self.P.types[v[1]]
            if inv is not None:
                r = st.rng(v[2])
                self.rec_int(inv + ('discr',), r[0], r[1])
            for vi, pl in v[3]:
                if is_const(v[2]) and vt['v'][vi]['d'] != v[2].c:
                    continue
                for i, x in enumerate(pl):
                    if vt.get('l'):
                        k = self.inv_base(inv, vt['p']) + ('v', vi, i)
                    else:
                        k = inv + ('v', vi, i) if inv is not None else None
                    self.record(st, x, k, vt['v'][vi]['f'][i][1], seen, depth + 1)
            return
        if tag == 'Q':
            ety = self.P.elem_ty(ty) if ty is not None else None
            self.mark(inv, 'seen' if ety is not None else 'poison')
            if inv is not None:
                l = self.seq_len(v)
                if not (len(l.t) == 1 and l.c == 0 and l.t[0][0].inv == inv + ('len',)):
                    r = st.rng_tight(l)
                    self.rec_int(inv + ('len',), max(r[0], 0), min(r[1], (1 << 63) - 1))
            ek = inv + ('e',) if inv is not None else None
            self.record_elems(st, v, ek, ety, seen, depth + 1)
            return
        if tag == 'M':
            kt = self.P.types[ty]['a'][0] if t and t['k'] == 'adt' and t.get('a') else None
            vty = self.P.types[ty]['a'][1] if t and t['k'] == 'adt' and len(t.get('a', [])) > 1 else None
            self.mark(inv, 'seen' if kt is not None and vty is not None else 'poison')
            if inv is not None and isinstance(v[4], Lin) and not (len(v[4].t) == 1 and v[4].c == 0 and v[4].t[0][0].inv == inv + ('len',)):
                r = st.rng_tight(v[4])
                self.rec_int(inv + ('len',), max(r[0], 0), min(r[1], (1 << 63) - 1))
            for k, x in v[2]:
                if x is not None:
                    self.record(st, x, inv + ('m',) if inv is not None else None, vty, seen, depth + 1)
                    self.record(st, k, inv + ('k',) if inv is not None else None, kt, seen, depth + 1)
            if v[1] is not None and v[1].inv != inv:
                if vty is not None:
                    self.record(st, self.map_elem(st, v, lin(atom(('any',), 0, POS)), vty), inv + ('m',) if inv is not None else None, vty, seen, depth + 1)
                if kt is not None and inv is not None:
                    self.record(st, self.mk_opaque(nm((v[1], 'anykey'), None, v[1].inv + ('k',) if v[1].inv else None), kt, st), inv + ('k',), kt, seen, depth + 1)

    def record_elems(self, st, v, ek, ety, seen, depth):
        for g in v[1]:
            if g[0] in ('one', 'rep'):
                self.record(st, g[1], ek, ety, seen, depth)
            elif g[0] == 'int':
                if ek:
                    self.rec_int(ek, 0, 255)
            elif g[0] == 'sub':
                if ek is not None and g[1].inv is not None and g[1].inv + ('e',) == ek:
                    continue
                if ety is not None:
                    self.record(st, self.mk_opaque(self.elem_nm(g[1], lin(atom(('any',), 0, POS)), ety), ety, st), ek, ety, seen, depth)
        for _, x in v[2]:
            self.record(st, x, ek, ety, seen, depth)

    # ------------------------------------------------------------ merging
    def reach(self, m, work, keep):
        while work:
            v = work.pop()
            if not isinstance(v, tuple) or not v:
                continue
            tag = v[0]
            if tag in ('R', 'SL', 'A', 'G'):
                loc = v[4] if tag == 'G' else v[1]
                if loc not in keep:
                    keep.add(loc)
                    x = m.get(loc)
                    if x is not None:
                        work.append(x)
                if tag == 'R' or tag == 'SL':
                    for s in v[2]:
                        pass
            elif tag in ('T',):
                work.extend(v[1])
            elif tag in ('S', 'C'):
                work.extend(v[2])
            elif tag == 'E':
                for _, pl in v[3]:
                    work.extend(pl)
            elif tag == 'Q':
                for g in v[1]:
                    if g[0] in ('one', 'rep', 'star'):
                        work.append(g[1])
                for _, x in v[2]:
                    work.append(x)
            elif tag == 'M':
                for k, x in v[2]:
                    work.append(k)
                    if x is not None:
                        work.append(x)
            elif tag in ('FU', 'X', 'IT'):
                work.extend(v[2:])
            elif isinstance(v, tuple):
                work.extend(x for x in v if isinstance(x, tuple))

    def gc(self, st):
        m = st.mem
        work = [v for k, v in m.items() if k[0] == 'l' or k[0] == 's']
        for g in st.locks:
            if g[3] in m:
                work.append(m[g[3]])
        keep = set(g[3] for g in st.locks)
        self.reach(m, work, keep)
        for k in [k for k in m if k[0] not in ('l', 's') and k not in keep]:
            if k[0] == 'n' and not k[1].orig:
                continue          # reachable again by name from an argument
            del m[k]
        if len(st.lins) + len(st.ivl) + len(st.nes) + len(st.bools) > 40:
            self.gc_facts(st)

    def gc_facts(self, st):
        """drop facts about values that nothing in the state can name any more"""
        live = set()
        for v in st.mem.values():
            tm.collect(v, live)
        for k in st.mem:
            if k[0] == 'n':
                live.add(k[1])
        for g in st.locks:
            tm.collect(g, live)
        for v in st.mon.values():
            tm.collect(v, live)
        memo = {}

        def alive(a):
            r = memo.get(a)
            if r is None:
                r = a in live or not a.orig
                if not r:
                    for p in tm.parts(a):
                        if p in live:
                            r = True
                            break
                memo[a] = r
            return r
        for t in [t for t in st.lins if not all(alive(a) for a, _ in t)]:
            del st.lins[t]
        for a in [a for a in st.ivl if not alive(a)]:
            del st.ivl[a]
        if st.nes:
            st.nes = frozenset(l for l in st.nes if all(alive(a) for a, _ in l.t))
        for a in [a for a in st.bools if isinstance(a, tm.Atom) and not alive(a)]:
            del st.bools[a]
        self.stats['gcf'] = self.stats.get('gcf', 0) + 1

    def prune(self, ctx, st, bb):
        fn = ctx.fn
        if bb is None:
            return
        live = fn.live[bb]
        dead = [k for k in st.mem if k[0] == 'l' and k[1] is ctx and k[2] not in live and k[2] not in fn.borrowed]
        for k in dead:
            v = st.mem[k]
            if k[2] == 0:
                continue
            del st.mem[k]

    def merge(self, ctx, sts, bb, kind='bb'):
        for s in sts:
            self.prune(ctx, s, bb)
        if len(sts) <= 1:
            return sts
        for s in sts:
            self.gc(s)
        out = []
        for s in sts:
            for o in out:
                if o.mem == s.mem and o.locks == s.locks and o.mon == s.mon and (self.part is None or self.part(o) == self.part(s)):
                    inter(o, s)
                    break
            else:
                out.append(s)
        if len(out) > self.cap:
            groups = {}
            for s in out:
                groups.setdefault(self.pkey(ctx, s, bb), []).append(s)
            if len(groups) > self.cap:
                groups2 = {}
                for s in out:
                    x = self.part(s) if self.part else None
                    groups2.setdefault((s.locks, fzp(s.mon), x), []).append(s)
                groups = groups2
            out = []
            pt = ctx.chain + ((ctx.fn.id, bb),)
            for k, g in groups.items():
                if len(g) == 1:
                    out.append(g[0])
                else:
                    self.stats['joins'] += 1
                    out.append(Join(self, ctx, ('m', pt, self.key_index(('m', pt), k)), pt, g, None).run())
        return out

    def key_index(self, base, k):
        d = self.pidx.setdefault(base, {})
        if k not in d:
            d[k] = len(d)
        return d[k]

    def pkey(self, ctx, st, bb):
        r = []
        live = ctx.fn.live[bb] if bb is not None else None
        for k, v in st.mem.items():
            if k[0] == 'l' and k[1] is ctx:
                if live is not None and k[2] not in live and k[2] not in ctx.fn.borrowed and k[2] != 0:
                    continue
                x = shape(v, 2)
                if x is not None:
                    r.append((k[2], x))
        r.sort(key=lambda p: p[0])
        if self.part is not None:
            x = self.part(st)
            return (tuple(r), st.locks, (fzp(st.mon), x))
        return (tuple(r), st.locks, fzp(st.mon))

    # ------------------------------------------------------------ loops
    def explain(self, a, b):
        if self.debug:
            for l in state_diff(a, b):
                print('   diff', l, file=sys.stderr)

    debug = False
    unroll = 0
    late_bounds = False
    part = None         # facts that keep states apart where paths meet

    def run_loop(self, ctx, comp, pending, rets):
        self.loops.append(ctx.chain + ((ctx.fn.id, comp[0]),))
        try:
            self.run_loop_(ctx, comp, pending, rets)
        finally:
            self.loops.pop()

    def run_loop_(self, ctx, comp, pending, rets):
        head, sub_, body = comp
        entry = pending.pop(head, None)
        if not entry:
            return
        entry = self.merge(ctx, entry, head)
        for _ in range(self.unroll):
            # peel: run the loop without joining its iterations
            loc = {head: entry}
            self.run_block(ctx, head, loc.pop(head), loc, rets)
            self.run_items(ctx, sub_, loc, rets)
            entry = loc.pop(head, [])
            for b, ss in loc.items():
                pending.setdefault(b, []).extend(ss)
            if not entry:
                return
            entry = self.merge(ctx, entry, head)
        pt = ctx.chain + ((ctx.fn.id, head),)
        inloop = InLoop(ctx, body)
        E = {}
        hooks = [m for m in self.monitors if hasattr(m, 'arrive')]
        for m in hooks:
            for s in entry:
                m.arrive(self, s, pt, False)
        for s in entry:
            E.setdefault(self.pkey(ctx, s, head), []).append(s)
        cur = {}
        for k, g in E.items():
            if len(g) == 1:
                cur[k] = g[0].copy()
            else:
                cur[k] = Join(self, ctx, ('L', pt, self.key_index(('L', pt), k)), pt, [x.copy() for x in g], inloop).run()
        visits = 0
        many = False
        while True:
            visits += 1
            loc = {head: [s.copy() for s in cur.values()]}
            rts = []
            for m in hooks:
                for s in loc[head]:
                    m.head(self, s, pt)
            self.run_block(ctx, head, loc.pop(head), loc, rts)
            self.run_items(ctx, sub_, loc, rts)
            back = loc.pop(head, [])
            for m in hooks:
                for s in back:
                    m.arrive(self, s, pt, True)
            if visits > 30:
                raise Abort('loop does not converge: %s bb%d' % (ctx.fn.p, head))
            for s in back:
                self.prune(ctx, s, head)
                self.gc(s)
            B = {}
            for s in back:
                B.setdefault(self.pkey(ctx, s, head), []).append(s)
            if many or len(set(E) | set(B)) > 24:
                many = True
                # too many partitions: collapse on lock/monitor state only
                E2, B2, c2 = {}, {}, {}
                for k, g in E.items():
                    E2.setdefault((('*',), k[1], k[2]), []).extend(g)
                for k, g in B.items():
                    B2.setdefault((('*',), k[1], k[2]), []).extend(g)
                E, B = E2, B2
            new = {}
            stable = True
            for k in list(E) + [k for k in B if k not in E]:
                ins = E.get(k, []) + B.get(k, [])
                if k in E and k not in B:
                    if k in cur:
                        new[k] = cur[k]
                        continue
                ki = self.key_index(('L', pt), k)
                if visits > 6 and k not in E and k in cur:
                    # reached from back edges only: do not forget what fed it before
                    ins = [cur[k]] + ins
                j = Join(self, ctx, ('L', pt, ki), pt, [x.copy() for x in ins], inloop,
                         prev=cur.get(k), visits=visits)
                ns = j.run()
                if k in cur and same_state(ns, cur[k]):
                    new[k] = cur[k]
                else:
                    stable = False
                    new[k] = ns
                    if visits > 26 and k in cur:
                        self.explain(ns, cur[k])
            if set(new) != set(cur):
                stable = False
                if self.debug and visits > 26:
                    print('   keys', [str(k)[:3000] for k in set(new) ^ set(cur)], file=sys.stderr)
            if stable:
                for b, ss in loc.items():
                    pending.setdefault(b, []).extend(ss)
                rets.extend(rts)
                return
            cur = new


def state_diff(a, b):
    r = []
    for k in set(a.mem) | set(b.mem):
        if a.mem.get(k) != b.mem.get(k):
            r.append('mem %s\n     %s\n     %s' % (str(k)[:120], str(a.mem.get(k))[:600], str(b.mem.get(k))[:600]))
    for k in set(a.ivl) | set(b.ivl):
        if a.ivl.get(k) != b.ivl.get(k):
            r.append('ivl %s %s %s' % (k, a.ivl.get(k), b.ivl.get(k)))
    for n in ('lins', 'nes', 'bools', 'mon', 'locks'):
        x, y = getattr(a, n), getattr(b, n)
        if x != y:
            r.append('%s %s' % (n, [str(z)[:300] for z in list(set(x) ^ set(y))][:4]))
    return r


class InLoop:
    def __init__(self, ctx, body):
        self.n = len(ctx.chain)
        self.chain = ctx.chain
        self.fid = ctx.fn.id
        self.body = body
        self.memo = {}

    def __call__(self, orig):
        if not orig:
            return False
        r = self.memo.get(orig)
        if r is None:
            r = False
            for o in orig:
                if len(o) > self.n and o[:self.n] == self.chain and o[self.n][0] == self.fid:
                    b = o[self.n][1]
                    if isinstance(b, tuple):
                        b = b[0]
                    if b in self.body:
                        r = True
                        break
            self.memo[orig] = r
        return r


THR = [0, 1, 2, 3, 4, 8, 16, 32, 64, 100, 128, 255, 256, 1024, 1400, 1500, 2047, 2048, 65535, 65536, (1 << 24) - 1,
       1 << 24, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 62), (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64,
       (1 << 128) - 1]


THR2 = [255, 65535, (1 << 24) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1]


def widen_hi(v, n=0):
    for t in (THR if n < 3 else THR2):
        if t >= v:
            return t
    return POS


def widen_lo(v):
    if v >= 0:
        for t in reversed(THR):
            if t <= v:
                return t
    for t in (-1, -(1 << 31), -(1 << 32), -(1 << 63), -(1 << 64), -(1 << 127)):
        if t <= v:
            return t
    return NEG


class Join:
    """n-ary join of states at a program point"""

    def __init__(self, E, ctx, pkey, pt, sts, inloop, prev=None, visits=0):
        self.E = E
        self.ctx = ctx
        self.pkey = pkey
        self.pt = pt
        self.sts = sts
        self.n = len(sts)
        self.inl = inloop or (lambda o: False)
        self.prev = prev
        self.visits = visits
        self.phis = []        # (atom, [defs])
        self.kfs = []

    def run(self):
        sts = self.sts
        base = sts[0]
        out = State()
        out.locks = base.locks
        out.mon = dict(base.mon)
        for k in base.mon:
            if isinstance(k, str) and k[0] == '~':
                # soft entries hold sets: what all agree on
                out.mon[k] = frozenset.intersection(*[s.mon.get(k, frozenset()) for s in sts])
        self.out = out
        keys = []
        for k in base.mem:
            if k[0] == 'l' and all(k in s.mem for s in sts):
                keys.append(k)
        seen = set(keys)
        hk = []
        for s in sts:
            for k in s.mem:
                if k[0] != 'l' and k not in seen:
                    seen.add(k)
                    hk.append(k)
        keys.sort(key=lambda k: (len(k[1].chain), k[1].chain.__repr__(), k[2]))
        for k in keys:
            out.mem[k] = self.jv([s.mem[k] for s in sts], ('l', k[1].chain, k[1].fn.id, k[2]), self.local_ty(k))
        for k in hk:
            vals = []
            for s in sts:
                v = s.mem.get(k)
                if v is None and k in self.E.ptype and k[0] in ('n', 's'):
                    v = self.E.load(s, k)
                vals.append(v)
            have = [v for v in vals if v is not None]
            idx = [i for i, v in enumerate(vals) if v is not None]
            if len(have) < self.n:
                if k[0] == 'k':
                    out.mem[k] = have[0]
                    continue
                # allocated on some inputs only
                fill = have[0]
                vals = [v if v is not None else fill for v in vals]
                # the filler must not contribute facts of another state
                vals2 = vals
                out.mem[k] = self.jv(vals2, ('h', k), self.E.ptype.get(k), soft=True)
                continue
            out.mem[k] = self.jv(vals, ('h', k), self.E.ptype.get(k))
        self.facts()
        self.fix_kfs()
        return out

    def local_ty(self, k):
        ls = k[1].fn.locals
        return ls[k[2]][0] if ls and k[2] < len(ls) else None

    # ---- leaves
    def phi(self, path, defs, soft=False):
        out = self.out
        if all(d is defs[0] for d in defs) and not self.inl(defs[0].orig):
            return defs[0]
        a = atom(('phi', self.pkey, path), orig=self.pt)
        if self.pkey[0] == 'L':
            nx = addc(lin(a), 1)
            ini = [d for d in defs if d is not nx]
            if len(ini) < len(defs) and all(d is ini[0] for d in ini) and ini and is_const(ini[0]):
                tm.T.counting[a] = ini[0].c
            else:
                tm.T.counting.pop(a, None)
        # share with an earlier phi if all differences agree
        for p, ds in self.phis:
            d0 = sub(defs[0], ds[0])
            if not self.inl(d0.orig) and all(sub(x, y) is d0 for x, y in zip(defs, ds)):
                return add(lin(p), d0)
        if self.n >= 2 and not soft:
            for p, ds in self.phis:
                r = self.ratio(defs, ds)
                if r is not None:
                    kk, d0 = r
                    if kk.t and not (self.n == 2 and is_const(defs[0]) and is_const(ds[0]) and path[0] == 'l'):
                        continue  # only a local counter advancing by a fixed stride
                    return add(mul(kk, lin(p)), d0)
        lo, hi = POS, NEG
        for s, d in zip(self.sts, defs):
            r = s.rng(d)
            lo = min(lo, r[0])
            hi = max(hi, r[1])
        if self.prev is not None:
            pr = self.prev.ivl.get(a)
            if pr is not None and self.visits >= 2:
                if lo < pr[0]:
                    lo = widen_lo(lo) if self.visits < 7 else NEG
                else:
                    lo = pr[0]
                if hi > pr[1]:
                    hi = widen_hi(hi, self.visits) if self.visits < 7 else POS
                else:
                    hi = pr[1]
        out.ivl[a] = (lo, hi)
        self.phis.append((a, defs))
        w, dd = self.E.wire.get(a, (False, frozenset()))
        for d in defs:
            w2, d2 = self.E.wire_lin(d)
            w, dd = w or w2, dd | d2
        self.E.wire[a] = (w, dd)
        return lin(a)

    def lphi(self, path, lens, soft):
        # lengths of in-memory sequences never exceed isize::MAX
        l = self.phi((path, 'len'), lens, soft)
        if not is_const(l) and len(l.t) == 1:
            a, c = l.t[0]
            r = self.out.ivl.get(a)
            if r is not None and c == 1 and l.c == 0:
                self.out.ivl[a] = (max(r[0], 0), min(r[1], (1 << 63) - 1))
        return l

    def ratio(self, defs, ds):
        """defs == k*ds + d with loop-invariant k, d"""
        for i in range(1, self.n):
            dd = sub(ds[i], ds[0])
            if not dd.t and dd.c != 0:
                de = sub(defs[i], defs[0])
                if self.inl(de.orig):
                    # may still be invariant after cancellation
                    return None
                if dd.c in (1, -1):
                    k = scale(de, dd.c)
                elif not de.t and de.c % dd.c == 0:
                    k = const(de.c // dd.c)
                else:
                    return None
                if not k.t and k.c in (0,):
                    return None
                d0 = sub(defs[0], mul(k, ds[0]))
                if self.inl(d0.orig):
                    return None
                for x, y in zip(defs, ds):
                    if sub(x, mul(k, y)) is not d0:
                        return None
                return k, d0
        return None

    def fresh(self, path, ty, inv=None):
        n = nm(('phi', self.pkey, path), self.pt, inv)
        return n

    def jv(self, vs, path, ty=None, soft=False):
        v0 = vs[0]
        same = all(v is v0 or v == v0 for v in vs[1:])
        if isinstance(v0, Lin) or any(isinstance(v, Lin) for v in vs):
            if all(isinstance(v, Lin) for v in vs):
                if same and not self.inl(v0.orig):
                    return v0
                return self.phi(path, vs, soft)
            return U
        if all(is_pred(v) for v in vs):
            if same and not self.inl(origs(v0)):
                return v0
            return ('b', atom(('phi', self.pkey, path), 0, 1, orig=self.pt))
        if not all(isinstance(v, tuple) for v in vs):
            return U
        if same and not self.has_inl(v0):
            return v0
        tags = set(v[0] for v in vs)
        if tags == {'U'}:
            return U
        if 'U' in tags:
            # maybe-initialised: keep the initialised part (it is never read when moved out)
            idx = [i for i, v in enumerate(vs) if v[0] != 'U']
            fill = vs[idx[0]]
            return self.jv([v if v[0] != 'U' else fill for v in vs], path, ty, soft=True)
        if len(tags) == 2 and 'O' in tags and tags & {'S', 'E', 'C'}:
            vs = [self.E.expand(s, v) if v[0] == 'O' else v for s, v in zip(self.sts, vs)]
            tags = set(v[0] for v in vs)
            v0 = vs[0]
        if len(tags) > 1:
            return self.top(vs, path, ty)
        tag = v0[0]
        if tag == 'T':
            if len(set(len(v[1]) for v in vs)) > 1:
                return self.top(vs, path, ty)
            fts = self.E.P.types[ty]['a'] if ty is not None and self.E.P.kind(ty) == 'tuple' else None
            return ('T', tuple(self.jv([v[1][i] for v in vs], (path, i), fts[i] if fts else None, soft) for i in range(len(v0[1]))))
        if tag in ('S', 'C'):
            if len(set(v[1] for v in vs)) > 1 or len(set(len(v[2]) for v in vs)) > 1:
                return self.top(vs, path, ty)
            fts = self.E.field_types(v0[1])
            return (tag, v0[1], tuple(self.jv([v[2][i] for v in vs], (path, i), fts[i] if i < len(fts) else None, soft) for i in range(len(v0[2]))))
        if tag == 'E':
            if len(set(v[1] for v in vs)) > 1:
                return self.top(vs, path, ty)
            t = self.E.P.types[v0[1]]
            d = self.jv([v[2] for v in vs], (path, 'd'), None, True)
            if isinstance(d, Lin) and d.t:
                ds = [x['d'] for x in t['v']]
            pls = []
            for vi in range(len(t['v'])):
                have = [dict(v[3]).get(vi) for v in vs]
                if all(h is None for h in have):
                    continue
                fill = [h for h in have if h is not None][0]
                sf = soft or any(h is None for h in have) or not is_const(d)
                have = [h if h is not None else fill for h in have]
                pls.append((vi, tuple(self.jv([h[i] for h in have], (path, 'v', vi, i), t['v'][vi]['f'][i][1], sf)
                                      for i in range(len(fill)))))
            return ('E', v0[1], d, tuple(pls))
        if tag == 'O':
            if len(set(v[2] for v in vs)) > 1:
                return self.top(vs, path, ty)
            return self.top(vs, path, v0[2])
        if tag == 'Q':
            return self.jseq(vs, path, ty, soft)
        if tag == 'M':
            return self.jmap(vs, path, ty, soft)
        if tag == 'SL':
            if len(set((v[1], v[2]) for v in vs)) == 1:
                return ('SL', v0[1], v0[2], self.jv([v[3] for v in vs], (path, 'off'), None, soft),
                        self.jv([v[4] for v in vs], (path, 'len'), None, soft))
            return self.top(vs, path, ty)
        if tag == 'R':
            if len(set(v[1] for v in vs)) == 1 and len(set(len(v[2]) for v in vs)) == 1:
                pr = []
                for j in range(len(v0[2])):
                    ss = [v[2][j] for v in vs]
                    if all(x == ss[0] for x in ss) and not self.inl(origs(ss[0])):
                        pr.append(ss[0])
                    elif all(x[0] == 'e' for x in ss):
                        pr.append(('e', self.jv([x[1] for x in ss], (path, 'p', j), None, soft), ss[0][2]))
                    else:
                        if same:
                            pr.append(ss[0])
                            continue
                        return self.top(vs, path, ty)
                return ('R', v0[1], tuple(pr))
            return self.top(vs, path, ty)
        if tag == 'IT':
            if len(set(v[1] for v in vs)) == 1 and len(set(len(v) for v in vs)) == 1:
                t = self.E.P.types[ty] if ty is not None else None
                sty = None
                if t and t['k'] == 'adt' and t.get('a'):
                    sty = ty if v0[1] == 'vec' else t['a'][0]
                return ('IT', v0[1]) + tuple(self.jv([v[i] for v in vs], (path, i), sty if i == 2 else None, soft) for i in range(2, len(v0)))
            return self.top(vs, path, ty)
        if same:
            return v0
        if tag in ('X', 'FU'):
            if len(set(v[1] for v in vs)) == 1 and len(set(len(v) for v in vs)) == 1:
                return (tag, v0[1]) + tuple(self.jv([v[i] for v in vs], (path, i), None, soft) if not isinstance(v0[i], str) else v0[i] for i in range(2, len(v0)))
        if tag == 'FL':
            return ('FL', self.fresh(path, None))
        return self.top(vs, path, ty)

    def has_inl(self, v):
        return self.inl(origs(v))

    def top(self, vs, path, ty):
        if ty is None:
            for v in vs:
                if v[0] == 'O':
                    ty = v[2]
                elif v[0] in ('S', 'E', 'C'):
                    ty = v[1]
        if ty is None:
            return ('X', 'top', ('phi', self.pkey, path).__hash__())
        inv = ('phi', self.pkey, path)
        n = self.fresh(path, ty, inv)
        for s, v in zip(self.sts, vs):
            self.E.record(s, v, inv, ty, set())
        return self.E.mk_opaque(n, ty, self.out)

    def jseq(self, vs, path, ty, soft):
        v0 = vs[0]
        E = self.E
        # same segment structure: join elementwise
        if all(len(v[1]) == len(v0[1]) and len(v[2]) == len(v0[2]) for v in vs) and \
                all(v[1][i][0] == v0[1][i][0] for v in vs for i in range(len(v0[1]))):
            ok = True
            ety = E.P.elem_ty(ty) if ty is not None else None
            segs = []
            for i, g in enumerate(v0[1]):
                gs = [v[1][i] for v in vs]
                if g[0] == 'one':
                    segs.append(('one', self.jv([x[1] for x in gs], (path, 's', i), ety, soft)))
                elif g[0] == 'sub':
                    if len(set(x[1] for x in gs)) > 1 or self.inl(g[1].orig):
                        ok = False
                        break
                    segs.append(('sub', g[1], self.jv([x[2] for x in gs], (path, 's', i, 0), None, soft),
                                 self.jv([x[3] for x in gs], (path, 's', i, 1), None, soft)))
                elif g[0] == 'rep':
                    segs.append(('rep', self.jv([x[1] for x in gs], (path, 's', i, 0), ety, soft),
                                 self.jv([x[2] for x in gs], (path, 's', i, 1), None, soft)))
                elif g[0] == 'int':
                    if len(set(x[2:] for x in gs)) > 1:
                        ok = False
                        break
                    segs.append(('int', self.jv([x[1] for x in gs], (path, 's', i), None, soft)) + g[2:])
                else:
                    ok = False
                    break
            foc = []
            if ok:
                for i in range(len(v0[2])):
                    if any(v[2][i][0] is not v0[2][i][0] for v in vs) or self.inl(v0[2][i][0].orig):
                        ok = False
                        break
                    foc.append((v0[2][i][0], self.jv([v[2][i][1] for v in vs], (path, 'foc', i), ety, soft)))
            if ok:
                return ('Q', tuple(segs), tuple(foc))
        inv = ('phi', self.pkey, path)
        if ty is None:
            return ('Q', (('sub', self.fresh(path, None), const(0), E.len_atom(self.fresh(path, None))),), ())
        # keep a common loop-invariant prefix
        pre = []
        if not any(v[2] for v in vs):
            for i in range(min(len(v[1]) for v in vs)):
                g = v0[1][i]
                if all(v[1][i] == g for v in vs) and not self.inl(origs(g)):
                    pre.append(g)
                else:
                    break
        lens = []
        for v in vs:
            l = const(0)
            for g in v[1][len(pre):]:
                l = add(l, E.seg_len(g))
            lens.append(l)
        n = self.fresh((path, 'tail'), ty, inv)
        for s, v in zip(self.sts, vs):
            rest = [g for g in v[1][len(pre):] if not (g[0] == 'sub' and g[1] is n)]
            E.record(s, ('Q', tuple(rest), v[2]), inv, ty, set())
        ln = self.lphi(path, lens, soft)
        return ('Q', tuple(pre) + (('sub', n, const(0), ln),), ())

    def jmap(self, vs, path, ty, soft):
        v0 = vs[0]
        E = self.E
        if all(v[1] is v0[1] and len(v[2]) == len(v0[2]) for v in vs) and not (v0[1] is not None and self.inl(v0[1].orig)):
            if all(v[2][i][0] == v0[2][i][0] and (v[2][i][1] is None) == (v0[2][i][1] is None)
                   for v in vs for i in range(len(v0[2]))) and not any(self.inl(origs(k)) for k, _ in v0[2]):
                vt = E.P.types[ty]['a'][1] if ty is not None and len(E.P.types[ty].get('a', [])) > 1 else None
                ovl = tuple((v0[2][i][0], None if v0[2][i][1] is None else self.jv([v[2][i][1] for v in vs], (path, 'o', i), vt, soft))
                            for i in range(len(v0[2])))
                m = ('M', v0[1], ovl, (), self.jv([v[4] for v in vs], (path, 'len'), None, soft))
                return self.kf(m, vs, path)
        inv = ('phi', self.pkey, path)
        n = self.fresh((path, 'base'), ty, inv)
        if ty is not None:
            for s, v in zip(self.sts, vs):
                if v[1] is not n:
                    E.record(s, v, inv, ty, set())
                else:
                    E.record(s, ('M', None, v[2], (), v[4]), inv, ty, set())
        ln = self.lphi(path, [v[4] for v in vs], soft)
        m = ('M', n, (), (), ln)
        return self.kf(m, vs, path)

    def kf(self, m, vs, path):
        """key facts: keep sequences enumerated on every input; the start index is fixed up later"""
        names = None
        for v in vs:
            s = set(perm_root(k) for k, _ in v[3])
            names = s if names is None else names & s
        if not names:
            return m
        kfs = []
        for r in sorted(names, key=lambda x: x.id):
            cand = []
            exact = set()
            for v in vs:
                for k, stt in v[3]:
                    if perm_root(k) is r:
                        cand.append((k, stt))
                        exact.add(k)
                        break
            if any(self.inl(k.orig) for k in exact):
                continue
            # entries over the unpermuted name only count when start is 0
            tgt = [k for k in exact if k is not r]
            t = tgt[0] if len(tgt) == 1 else (r if not tgt else None)
            if t is None:
                continue
            good = True
            for k, stt in cand:
                if k is not t and stt is not const(0):
                    good = False
            if not good:
                continue
            starts = [stt for k, stt in cand]
            if all(x is starts[0] for x in starts) and not self.inl(starts[0].orig):
                kfs.append((t, starts[0]))
            else:
                kfs.append((t, ('pend', tuple(starts))))
        return ('M', m[1], m[2], tuple(kfs), m[4])

    def fix_kfs(self):
        """resolve pending key-fact starts against the loop's induction variables"""
        def fix(v):
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] == 'M' and any(isinstance(s, tuple) for _, s in v[3]):
                kfs = []
                for k, s in v[3]:
                    if not isinstance(s, tuple):
                        kfs.append((k, s))
                        continue
                    starts = s[1]
                    best = None
                    for p, ds in self.phis:
                        if all(st.prove(sub(d, x)) for st, d, x in zip(self.sts, ds, starts)):
                            # the weakest bound is the one the enumeration itself advances
                            if best is None or all(st.prove(sub(d, x)) for st, d, x in zip(self.sts, ds, best[1])):
                                best = (p, ds)
                    if best is not None:
                        kfs.append((k, lin(best[0])))
                return ('M', v[1], v[2], tuple(kfs), v[4])
            if v[0] in ('S', 'C'):
                n = tuple(fix(x) for x in v[2])
                return v if n == v[2] else (v[0], v[1], n)
            if v[0] == 'T':
                n = tuple(fix(x) for x in v[1])
                return v if n == v[1] else ('T', n)
            return v
        for k, v in list(self.out.mem.items()):
            n = fix(v)
            if n is not v:
                self.out.mem[k] = n

    # ---- facts
    def facts(self):
        out, sts = self.out, self.sts
        # intervals of shared atoms
        base = sts[0]
        phiset = set(p for p, _ in self.phis)
        for a in base.ivl:
            if a in phiset or self.inl(a.orig):
                continue
            if all(a in s.ivl for s in sts[1:]):
                lo = min(s.ivl[a][0] for s in sts)
                hi = max(s.ivl[a][1] for s in sts)
                if (lo, hi) != (a.lo, a.hi):
                    out.ivl[a] = (lo, hi)
        bl = dict((a, v) for a, v in base.bools.items() if not self.inl(a.orig))
        for s in sts[1:]:
            bl = {a: v for a, v in bl.items() if s.bools.get(a) == v}
        out.bools = bl
        ne = [l for l in base.nes if not self.inl(l.orig)]
        for s in sts[1:]:
            ne = [l for l in ne if s.implies(('ne', l))]
        out.nes = frozenset(ne)
        # linear facts
        cands = {}
        for i, s in enumerate(sts):
            m = {}
            for p, ds in self.phis:
                d = ds[i]
                if len(d.t) == 1 and d.t[0][1] in (1, -1):
                    a, k = d.t[0]
                    # d = k a + c == phi  ->  a = k(phi - c)
                    m.setdefault(a, []).append(scale(addc(lin(p), -d.c), k))
            for t, c in s.lins.items():
                l = mk(c, t)
                if not self.inl(l.orig) and not any(a in phiset for a, _ in t):
                    cands.setdefault(l, None)
                for a, _ in t:
                    if a in m:
                        for x in m[a][:3]:
                            l2 = subst(l, {a: x})
                            # the rest must be loop-invariant or phis; try a second substitution
                            for b, _ in l2.t:
                                if b in m and b not in phiset:
                                    l2 = subst(l2, {b: m[b][0]})
                            if all((b in phiset) or not self.inl(b.orig) or (b.key[0] == 'mul') for b, _ in l2.t):
                                cands.setdefault(l2, None)
            # upper bounds that show up as intervals of the defining atom are covered by the hull
        # entry relations between a phi and an invariant expression
        fresh = set()
        if self.E.late_bounds:
            for p, ds in self.phis:
                for d in ds:
                    if d.t and len(d.t) == 1 and not self.inl(d.orig) and d.t[0][0] not in phiset:
                        cands.setdefault(sub(lin(p), d), None)
                        fresh.add(sub(lin(p), d))
        # a count of chunks: quotient, or quotient + 1 when there is a remainder
        for p, ds in self.phis:
            for d in ds:
                for a, _ in d.t:
                    if a.key[0] == 'div' and isinstance(a.key[1], Lin) and isinstance(a.key[2], Lin) and not self.inl(a.orig):
                        n, q = a.key[1], mul(a.key[2], lin(p))
                        cands.setdefault(sub(q, n), None)
                        cands.setdefault(addc(sub(add(n, a.key[2]), q), -1), None)
        if len(cands) > 400:
            cands = dict(list(cands.items())[:400])
        for l in cands:
            if self.prev is not None and self.visits >= 2:
                o = self.prev.lins.get(l.t)
                if len(l.t) > 1 and (o is None or o > l.c) and not (self.visits == 2 and l in fresh) and not (self.E.late_bounds and o is None and self.visits == 2 and len(l.t) == 2 and any(
                        k == -1 and a in tm.T.counting and a in phiset for a, k in l.t)):
                    continue
            ok = True
            for i, s in enumerate(sts):
                m = {p: ds[i] for p, ds in self.phis}
                li = subst(l, m)
                if not s.prove(li, 3):
                    ok = False
                    break
            if ok and len(l.t) > 1:
                l = p_ge(l)[1]
                o = out.lins.get(l.t)
                if o is None or l.c < o:
                    out.lins[l.t] = l.c
        if self.prev is not None and self.visits >= 2:
            for t, c in self.prev.lins.items():
                if t in out.lins:
                    # monotone: never strengthen
                    out.lins[t] = max(out.lins[t], c)
                    continue
                l = mk(c, t)
                ok = True
                for i, s in enumerate(sts):
                    m = {p: ds[i] for p, ds in self.phis}
                    if not s.prove(subst(l, m), 3):
                        ok = False
                        break
                if ok:
                    out.lins[t] = c


def inter(o, s):
    """o := facts common to o and s (identical memories)"""
    ivl = {}
    for a, r in o.ivl.items():
        q = s.ivl.get(a)
        if q is None:
            continue
        x = (min(r[0], q[0]), max(r[1], q[1]))
        if x != (a.lo, a.hi):
            ivl[a] = x
    lins = {}
    for t, c in o.lins.items():
        d = s.lins.get(t)
        if d is not None:
            lins[t] = max(c, d)
        elif s.prove(mk(c, t), 1):
            lins[t] = c
    for t, c in s.lins.items():
        if t not in lins and t not in o.lins and o.prove(mk(c, t), 1):
            lins[t] = c
    nes = frozenset(l for l in o.nes if l in s.nes or s.implies(('ne', l))) | \
        frozenset(l for l in s.nes if o.implies(('ne', l)))
    bools = {a: v for a, v in o.bools.items() if s.bools.get(a) == v}
    o.ivl, o.lins, o.nes, o.bools = ivl, lins, nes, bools


def same_state(a, b):
    return a.mem == b.mem and a.locks == b.locks and a.mon == b.mon and a.ivl == b.ivl and a.lins == b.lins \
        and a.nes == b.nes and a.bools == b.bools


def shape(v, d):
    if isinstance(v, bool):
        return v
    if isinstance(v, tuple):
        t = v[0]
        if t == 'U':
            return 'U'
        if t == 'E' and is_const(v[2]):
            if d > 0:
                for vi, pl in v[3]:
                    sub_ = tuple(shape(x, d - 1) for x in pl)
                    if any(x is not None for x in sub_):
                        return (v[2].c, sub_)
            return (v[2].c,)
        if t in ('T',) and d > 0:
            s = tuple(shape(x, d - 1) for x in v[1])
            return s if any(x is not None for x in s) else None
        if t in ('S', 'C') and d > 0:
            s = tuple(shape(x, d - 1) for x in v[2])
            return s if any(x is not None for x in s) else None
        if t == 'G':
            return ('G', v[3])
    return None


def fz(d):
    return tuple(sorted(d.items(), key=lambda p: repr(p[0])))


def fzp(d):
    """monitor state as far as it keeps states apart"""
    return tuple(sorted(((k, v) for k, v in d.items() if not (isinstance(k, str) and k[0] == '~')), key=lambda p: repr(p[0])))


class Event:
    __slots__ = ('kind', 'c', 'd')

    def __init__(self, kind, c, d):
        self.kind = kind
        self.c = c
        self.d = d

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)


SEQS = {'alloc::vec::Vec', 'alloc::string::String', 'alloc::collections::vec_deque::VecDeque'}
MAPS = {'std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap',
        'std::collections::hash::set::HashSet', 'alloc::collections::btree::set::BTreeSet'}
DROPTAGS = {'S', 'T', 'E', 'C', 'G', 'O', 'A', 'X'}
DROPEV = {'tokio::sync::mpsc::bounded::Sender', 'tokio::sync::mpsc::bounded::Receiver'}


def short(p):
    return p.replace('rust_raknet::', '')


def norm_c(P, ty, c):
    if ty is not None and P.kind(ty) == 'int':
        lo, hi = P.irange(ty)
        if c > hi:
            return c - (hi - lo + 1)
    return c


def flat(proj):
    """fold slice steps into following element steps"""
    if not any(s[0] == 'sl' for s in proj):
        return proj
    out = []
    off = None
    for s in proj:
        if s[0] == 'sl':
            off = s[1] if off is None else add(off, s[1])
        elif s[0] == 'e' and off is not None:
            out.append(('e', add(off, s[1]), s[2]))
            off = None
        else:
            out.append(s)
    return tuple(out)


TAINT = ('unk', 'bad', 'ambig', 'havoc', 'dyncall', 'constfn', 'constref', 'top')
_taint = {}


def tainted(x):
    """does a value depend on something the models do not describe?"""
    if isinstance(x, (Nm, Atom, Lin)):
        k = (type(x), x.id)
        r = _taint.get(k)
        if r is None:
            _taint[k] = False
            if isinstance(x, Lin):
                r = any(tainted(a) for a, _ in x.t)
            else:
                r = tainted(x.key)
            _taint[k] = r
        return r
    if isinstance(x, str):
        return x.startswith(TAINT)
    if isinstance(x, tuple):
        return any(tainted(y) for y in x if not isinstance(y, int))
    return False


def st_tainted(st):
    for a in st.ivl:
        if tainted(a):
            return True
    for a in st.bools:
        if tainted(a):
            return True
    for l in st.nes:
        if tainted(l):
            return True
    return False


PREDS = {'ge', 'eq', 'ne', 'b', 'nb', 'and', 'or'}


def is_pred(v):
    return isinstance(v, bool) or (isinstance(v, tuple) and len(v) >= 2 and v[0] in PREDS)


def is_scalar(v):
    return isinstance(v, (Lin, bool)) or is_pred(v)


def vkey(v):
    return v


def fl_const(v):
    """the value of a floating point term made of constants, else None"""
    if isinstance(v, Lin):
        return float(v.c) if not v.t else None
    if not (isinstance(v, tuple) and len(v) == 2 and v[0] == 'FL'):
        return None
    k = v[1].key
    if not k:
        return None
    if k[0] == 'const':
        try:
            return float(k[1])
        except (TypeError, ValueError):
            return None
    if k[0] in ('i2f', 'neg'):
        x = fl_const(k[1])
        return x if x is None or k[0] == 'i2f' else -x
    if k[0] in ('Add', 'Sub', 'Mul', 'Div') and len(k) == 3:
        a, b = fl_const(k[1]), fl_const(k[2])
        if a is None or b is None or k[0] == 'Div' and b == 0:
            return None
        return {'Add': a + b, 'Sub': a - b, 'Mul': a * b, 'Div': a / b if b else 0}[k[0]]
    return None


def perm_root(n):
    while n.key and n.key[0] == 'sorted':
        n = n.key[1]
    return n


def byte_of(v, k):
    """k-th (little endian) byte of v"""
    if not v.t:
        return const((v.c >> (8 * k)) & 255)
    if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and v.t[0][0].key[0] == 'sgn':
        return byte_of(v.t[0][0].key[1], k)
    if len(v.t) >= 1:
        # linear combinations of byte atoms with distinct power-of-256 weights
        ok = v.c == 0
        for a, q in v.t:
            if not (a.lo >= 0 and a.hi <= 255):
                ok = False
        if ok:
            for a, q in v.t:
                if q == 1 << (8 * k):
                    return lin(a)
            if all(q in (1, 256, 1 << 16, 1 << 24, 1 << 32, 1 << 40, 1 << 48, 1 << 56) for _, q in v.t):
                return const(0)
    return lin(atom(('byte', v, k), 0, 255))
