"""The reliability layer analysed on its own: receive queue, send queue, acknowledgement sets, fragments."""
from sa.driver import Run
from sa.unit import Unit, sig, find_fns
from sa.terms import *
from sa import terms as tm
from sa.state import State
from sa.interp import Abort
from sa import eqv, witness
from .common import ROOT
import os

DUMP = os.environ.get('RNV_DUMP')      # development only: an already exported tree
UNREL, UNREL_SEQ, REL, REL_ORD, REL_SEQ = 0, 1, 2, 3, 4
FRAGMENT = 0x10
NAMES = ['Unreliable', 'UnreliableSequenced', 'Reliable', 'ReliableOrdered', 'ReliableSequenced']
U32 = (1 << 32) - 1


class Lost(Exception):
    """the rule has no subject in this tree: nothing is decided"""


class Q:
    """what the checks of this file share: the program and the types they talk about"""

    def __init__(self):
        self.run = Run(DUMP, rounds=1)
        P = self.P = self.run.P
        self.recv_insert = self.method('RecvQ', 'insert')
        self.recv_flush = self.method('RecvQ', 'flush')
        self.send_insert = self.method('SendQ', 'insert')
        self.send_flush = self.method('SendQ', 'flush')
        self.send_ack = self.method('SendQ', 'ack')
        self.ack_insert = self.method('ACKSet', 'insert')
        self.ack_get = self.method('ACKSet', 'get_ack')
        self.frame = [i for i, t in enumerate(P.types) if t['k'] == 'adt' and t['p'].endswith('::FrameSetPacket')][0]
        self.fnames = [n for n, _ in P.types[self.frame]['v'][0]['f']]

    def method(self, ty, name):
        fs = [f for f in find_fns(self.P) if f.p.endswith('::%s::%s' % (ty, name))]
        if len(fs) != 1:
            raise Lost('%s::%s' % (ty, name))
        return fs[0]

    def self_ty(self, f):
        return self.P.types[sig(self.P, f)[0][0]]['t']

    def leaves(self, ty, proj=()):
        """(projection, type) of the scalar and container fields of a local struct, nested structs opened"""
        t = self.P.types[ty]
        if t['k'] == 'adt' and t.get('l') and t.get('ak') == 'struct':
            r = []
            for i, (_, ft) in enumerate(t['v'][0]['f']):
                r += self.leaves(ft, proj + (('f', i, ft),))
            return r
        return [(proj, ty)]

    def is_map_of(self, ty, elem):
        t = self.P.types[ty]
        return t['k'] == 'adt' and t['p'].endswith('Map') and len(t['a']) > 1 and t['a'][1] == elem

    def is_vec_of(self, ty, elem):
        t = self.P.types[ty]
        return t['k'] == 'adt' and t['p'].split('::')[-1] in ('Vec', 'VecDeque') and t['a'][0] == elem

    def new(self, monitors=()):
        u = Unit(self.run, monitors)
        u.st = State()
        return u

    def mkframe(self, u, flags=None, tag='frame'):
        P = self.P
        vals = []
        for n, ft in P.types[self.frame]['v'][0]['f']:
            vals.append(const(flags) if n == 'flags' and flags is not None else u.opaque(ft, (tag, n), u.st))
        return ('S', self.frame, tuple(vals))

    def fld(self, fr, name):
        return fr[2][self.fnames.index(name)]

    def self_arg(self, u, f):
        a = sig(self.P, f)[0]
        r = u.opaque(a[0], ('self',), u.st)
        return r

    def open(self, E, st, v):
        """a frame value with its fields"""
        if isinstance(v, tuple) and v[0] == 'O':
            v = E.expand(st, v)
        return v


def get(E, st, ref, proj):
    return E.get(st, ref[1], ref[2] + proj)


def src(v):
    """the element a struct value was copied from: (container name, index/key step), its scalar fields agreeing"""
    par = None
    if v[0] == 'O':
        return v[1]
    for i, x in enumerate(v[2]):
        n = None
        if isinstance(x, Lin) and len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 and x.t[0][0].key[0] == 'o':
            n = x.t[0][0].key[1]
        elif isinstance(x, tuple) and x[0] == 'Q' and len(x[1]) == 1 and x[1][0][0] == 'sub':
            n = x[1][0][1]
        if n is None or len(n.key) != 2 or n.key[1] != ('f', i):
            return None
        if par is not None and par is not n.key[0]:
            return None
        par = n.key[0]
    return par


def elem_of(v, mapname):
    """the key under which v sits in the map, None if it is not an element of it"""
    n = src(v)
    if n is None or len(n.key) != 2 or not isinstance(n.key[1], tuple):
        return None
    base, step = n.key
    if step[0] == 'm' and base is mapname:
        return step[1]
    return None


def mapname(E, st, ref, proj):
    m = get(E, st, ref, proj)
    return m[1] if isinstance(m, tuple) and m[0] == 'M' else None


def tri(rep, key, r, detail):
    if r is True:
        rep.ok(key)
    elif r is False:
        rep.bad(key, detail)
    else:
        rep.und(key, detail)
    return r


def ge(E, st, a, b):
    """a >= b: True, False (with a witness), None"""
    d = sub(a, b)
    if st.prove(d):
        return True
    return False if refuted(st, ('ge', d)) else None


def lt(E, st, a, b):
    return ge(E, st, b, addc(a, 1))


def refuted(st, p):
    """is there an assignment of the inputs that satisfies the path and falsifies p"""
    try:
        return witness.falsify(st, p)
    except Exception:
        return None


def eqq(E, st, a, b):
    return eqv.eq(E, st, a, b)


# ------------------------------------------------------------------ receive queue
class RecvMon:
    """classifies what insert does with the frame, one short code per effect so that paths stay apart"""

    def __init__(self, q, u, ref, frame):
        self.q, self.u, self.ref, self.frame = q, u, ref, frame
        self.leaf = {}
        for p, t in q.leaves(q.self_ty(q.recv_insert)):
            if q.is_map_of(t, q.frame):
                self.leaf[p] = t
        self.bad = []

    def event(self, E, st, ev):
        if ev.kind not in ('mapins', 'maphas', 'maprem', 'mapclear'):
            return
        t = st.mon.get('acts', ())
        proj = ev.proj[len(self.ref[2]):] if ev.loc == self.ref[1] else None
        if proj not in self.leaf:
            # a map further inside: that of the fragments
            if ev.kind == 'mapins' and ('kept',) not in t and self.has_frame(E, st, ev.val):
                st.mon['acts'] = t + (('kept',),)
            return
        if ev.kind == 'maphas':
            if ev.has is True:
                for n in ('sequence_number', 'ordered_frame_index'):
                    if E.veq(ev.key, self.q.fld(self.frame, n)) is True:
                        a = ('dup', proj, n)
                        if a not in t:
                            st.mon['acts'] = t + (a,)
            return
        if ev.kind == 'mapins':
            what = []
            for n in ('sequence_number', 'ordered_frame_index', 'reliable_frame_index', 'sequenced_frame_index'):
                if eqq(E, st, ev.key, self.q.fld(self.frame, n)) is True:
                    what.append(n)
            v = self.q.open(E, st, ev.val)
            same = v[0] == 'S' and len(v[2]) == len(self.frame[2]) and all(
                eqq(E, st, x, y) is True for x, y in zip(v[2], self.frame[2]))
            a = ('ins', proj, tuple(what), same, bool(ev.had))
        else:
            a = (ev.kind, proj)
        if a not in t:
            st.mon['acts'] = t + (a,)


    def has_frame(self, E, st, v):
        v = self.q.open(E, st, v)
        return v[0] == 'S' and len(v[2]) == len(self.frame[2]) and all(eqq(E, st, x, y) is True for x, y in zip(v[2], self.frame[2]))


def insert_cases(q, flags):
    """every exit of RecvQ::insert for a frame with these flags: (state, value, actions, unit, receiver ref, frame)"""
    u = q.new()
    ref = q.self_arg(u, q.recv_insert)
    fr = q.mkframe(u, flags)
    m = RecvMon(q, u, ref, fr)
    u.E.monitors.append(m)
    E = u.E
    pre = {}
    for p, t in q.leaves(q.self_ty(q.recv_insert)):
        pre[p] = get(E, u.st, ref, p)
    interest = {a for n in ('sequence_number', 'ordered_frame_index', 'sequenced_frame_index') for a, _ in q.fld(fr, n).t}
    mine = {p: v.t[0][0] for p, v in pre.items() if isinstance(v, Lin) and len(v.t) == 1}

    def part(st):
        r = []
        for t, c in st.lins.items():
            if len(t) == 2 and any(a in interest for a, _ in t) and any(a in mine.values() for a, _ in t):
                r.append((tuple((a.id, k) for a, k in t), c))
        return tuple(sorted(r))
    E.part = part
    out = []
    for st, v in u.call(q.recv_insert, [ref, fr], u.st):
        out.append((st, v, st.mon.get('acts', ()), u, ref, fr, pre))
    return out


def is_ok(v):
    return v[0] == 'E' and is_const(v[2]) and v[2].c == 0


def changed(E, st, ref, pre):
    """scalar fields of the queue whose value may differ from entry: {proj: new value}"""
    r = {}
    for p, v in pre.items():
        if isinstance(v, Lin):
            n = get(E, st, ref, p)
            if n is not v:
                r[p] = n
    return r


def flush_info(q):
    """analyses RecvQ::flush; finds the delivery cursor as the counter it advances"""
    u = q.new()
    ref = q.self_arg(u, q.recv_flush)
    E = u.E
    ty = q.self_ty(q.recv_flush)
    pre = {p: get(E, u.st, ref, p) for p, t in q.leaves(ty)}
    rets = u.call(q.recv_flush, [ref] + [u.opaque(t, ('a', i), u.st) for i, t in enumerate(sig(q.P, q.recv_flush)[0][1:])], u.st)
    cur = set()
    for st, v in rets:
        cur |= set(changed(E, st, ref, pre))
    return cur


def key_base(over):
    """(name of the list, name of the map) if the sequence lists keys of a map"""
    if not (isinstance(over, tuple) and over[0] == 'Q' and len(over[1]) == 1 and over[1][0][0] == 'sub'):
        return None
    b = r = over[1][0][1]
    while r.key and r.key[0] == 'sorted':
        r = r.key[1]
    if not (r.key and r.key[0] == 'keys'):
        return None
    return b, r.key[1]


def item_key(E, st, ev, b):
    if isinstance(ev.key, Lin):
        return ev.key
    t = E.ptype.get(('keyty', b[0])) or E.P._tid['u32']
    v = E.seq_get(st, ev.over, ev.idx, t)
    return v if isinstance(v, Lin) else None


class FlushMon:
    def __init__(self, q, ref, cursor, pre, rep):
        self.q, self.ref, self.cursor, self.pre, self.rep = q, ref, cursor, pre, rep
        self.maps = {p: v[1] for p, v in pre.items() if isinstance(v, tuple) and v[0] == 'M'}
        self.deliv = 0
        self.cleared = set()
        self.keyat = {}
        self.from_maps = {}
        self.sorts = []
        self.deferred = []
        self.moved = False
        self.passed = 0

    def base(self, E, st):
        return st.mon.get('base') or self.pre[self.cursor]

    def frames(self, E, st, ev):
        if ev.kind == 'push':
            v = self.q.open(E, st, ev.val)
            if isinstance(v, tuple) and v[0] == 'S' and v[1] == self.q.frame:
                return [v]
        return []

    def event(self, E, st, ev):
        if ev.kind == 'sort':
            self.sorts.append(ev)
        if ev.kind in ('item', 'exhaust') and ev.over is not None:
            b = key_base(ev.over)
            if b is not None and self.root_map(b[1]) == self.ordered:
                if ev.kind == 'exhaust':
                    st.mon['all'] = True
                else:
                    st.mon['item'] = item_key(E, st, ev, b)
                    st.mon.pop('all', None)
            elif b is not None and self.root_map(b[1]) is not None:
                if ev.kind == 'exhaust':
                    st.mon['uall'] = True
                else:
                    st.mon['uitem'] = self.root_map(b[1])
        if ev.kind in ('mapclear', 'take') and 'loc' in ev.d and ev.loc == self.ref[1]:
            p = ev.proj[len(self.ref[2]):]
            self.cleared.add(p)
        for v in self.frames(E, st, ev):
            n = src(v)
            if n is None or len(n.key) != 2 or not isinstance(n.key[1], tuple) or n.key[1][0] != 'm':
                self.rep.und('delivered frame', 'the frame pushed at %s is not recognisably an element of a queue map' % (ev.c.span,))
                st.mon['other'] = True
                continue
            p = self.root_map(n.key[0])
            if p is None:
                self.rep.und('delivered frame', 'of an unknown container')
                continue
            self.deliv += 1
            key = n.key[1][1]
            self.from_maps.setdefault(p, []).append((st, key, ev))
            ds = st.mon.get('d', ())
            st.mon['d'] = ds + ((p, key),)

    def root_map(self, n):
        """which map leaf a container name comes from (a loop's name of a map counts for the map)"""
        for p, m in self.maps.items():
            if n is m:
                return p
        for p in self.maps:
            s = repr(n)
            if self.tail_is(n, p):
                return p
        return None

    def tail_is(self, n, p):
        # phi names of memory carry the path of the field they stand for
        k = n.key
        try:
            path = k[2] if len(k) > 2 else None
        except Exception:
            return False
        if k[0] != 'phi' or not isinstance(path, tuple):
            return False
        idx = []

        def walk(x):
            if isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple):
                        walk(y)
                    elif isinstance(y, int):
                        idx.append(y)
        walk(path)
        want = [s[1] for s in p]
        return idx[-len(want):] == want

    def head(self, E, st, pt):
        self.fresh(st)
        st.mon['base'] = get(E, st, self.ref, self.cursor)

    def arrive(self, E, st, pt, back):
        self.settle(E, st, 'around a loop')
        early = not back and not st.mon.get('all') and any(p == self.ordered for p, _ in st.mon.get('d', ()))
        if back:
            st.mon.pop('early', None)
        self.fresh(st)
        if early:
            st.mon['early'] = True

    def fresh(self, st):
        keep = {k: True for k in ('all', 'uall', 'early') if st.mon.get(k)}
        st.mon.clear()
        st.mon.update(keep)

    def later(self, key, r, detail, moved):
        """a failed account inside a loop counts only if the loop keeps its account in the cursor itself"""
        if r is False and not moved:
            self.deferred.append((key, detail))
            return
        if r is True and moved:
            self.moved = True
        tri(self.rep, key, r, detail)

    def finish(self):
        for k, d in self.deferred:
            if self.moved:
                self.rep.bad(k, d)
            else:
                self.rep.und(k, d)

    def absent(self, E, st, p, k):
        m = get(E, st, self.ref, p)
        if not (isinstance(m, tuple) and m[0] == 'M'):
            return False
        h = E.map_has(st, m, k)
        h = st.decide(h) if h is not None and not isinstance(h, bool) else h
        return h is False

    def settle(self, E, st, where):
        """the cursor moved by exactly the number of ordered frames delivered, each carrying the next index"""
        base = st.mon.get('base') or self.pre[self.cursor]
        now = get(E, st, self.ref, self.cursor)
        n = 0
        om = self.ordered
        moved = now is not base
        ds = [k for p, k in st.mon.get('d', ()) if p == om]
        item = st.mon.get('item')
        ui = st.mon.get('uitem')
        if ui is not None and not st.mon.get('other'):
            self.rep.check('no unordered frame is passed over', any(p == ui for p, k in st.mon.get('d', ())), 'an entry is visited and not delivered (%s)' % where)
        if item is not None and not ds:
            self.passed += 1
            x = item if isinstance(item, Lin) else None
            d = st.decide(p_ne(sub(x, base))) if x is not None else None
            if d is False and self.absent(E, st, om, x):
                d = True
            self.later('a frame that is next is not passed by', d, 'key %s may be the next index %s' % (x, base), moved)
        for p, key in st.mon.get('d', ()):
            if p != om:
                continue
            k = key[1] if isinstance(key, tuple) and key[0] == 'k' else key
            self.later('a delivered ordered frame carries the next index', eqv.eq_lin(st, k, addc(base, n)) if isinstance(k, Lin) else None,
                       'delivered key %s while the next index is %s' % (k, addc(base, n)), moved)
            m = get(E, st, self.ref, p)
            if isinstance(m, tuple) and m[0] == 'M':
                h = E.map_has(st, m, k)
                h = st.decide(h) if h is not None and not isinstance(h, bool) else h
                tri(self.rep, 'a delivered ordered frame leaves the queue', {True: False, False: True}.get(h), 'key %s is still in the map %s' % (k, where))
            n += 1
        self.later('the cursor advances by one per delivered frame', eqv.eq_lin(st, now, addc(base, n)),
                   'cursor %s, was %s, with %d ordered frames delivered (%s)' % (now, base, n, where), moved)


def where_map(q, flags, cases):
    ps = {a[1] for c in cases for a in c[2] if a[0] == 'ins'}
    return ps.pop() if len(ps) == 1 else None


def ordered(rep):
    """P08"""
    q = Q()
    rep.rule('RecvQ::insert, analysed for a ReliableOrdered frame against an arbitrary queue: every exit stores the frame unchanged under its ordered '
             'index, or knows the index to be below the cursor, or knows the same frame to be pending.')
    rep.rule('RecvQ::flush, analysed for an arbitrary queue with an inductive account at every loop: each ordered frame pushed carries the index '
             'base+n, it leaves the map, the cursor ends at base+n, and no key equal to the cursor is skipped; keys are visited in ascending order.')
    rep.assume += ['HashMap, BTreeMap, Vec and sort behave as documented (models in sa/models.py)',
                   'fewer than 2^32 ordered messages per connection']
    curs = flush_info(q)
    if len(curs) != 1:
        rep.und('cursor', 'RecvQ::flush advances %d counters' % len(curs))
        return
    cur = curs.pop()
    plain = insert_cases(q, UNREL << 5)
    um = where_map(q, 0, plain)
    cases = insert_cases(q, REL_ORD << 5)
    om = where_map(q, 0, cases)
    if om is None:
        ins = [c for c in cases if any(a[0] == 'ins' for a in c[2])]
        if not ins:
            rep.und('insert', 'no insertion of an ordered frame recognised')
        else:
            rep.und('insert', 'ordered frames go to more than one map')
        return
    rep.check('ordered frames have a queue of their own', om != um, 'ordered and unordered frames share the map')
    n = 0
    for st, v, acts, u, ref, fr, pre in cases:
        E = u.E
        n += 1
        idx = q.fld(fr, 'ordered_frame_index')
        c0 = pre[cur]
        tri(rep, 'insert accepts an ordered frame', True if is_ok(v) else None, 'an exit returns %s' % (v,))
        ins = [a for a in acts if a[0] == 'ins' and a[1] == om]
        if ins:
            for a in ins:
                rep.check('an ordered frame is stored under its ordered index', 'ordered_frame_index' in a[2], 'stored under %s' % (a[2] or 'another key',))
                rep.check('an ordered frame is stored unchanged', a[3], 'the stored frame differs from the received one')
            tri(rep, 'an already delivered index is not stored again', ge(E, st, idx, c0), 'stored although the index may be below the cursor: %s' % refuted(st, ('ge', sub(idx, c0))))
        elif any(a[0] == 'dup' for a in acts):
            rep.ok('a frame is dropped only as a duplicate')
        else:
            r = lt(E, st, idx, c0)
            tri(rep, 'a frame is dropped only as a duplicate', r, 'dropped with an index at or above the cursor, e.g. %s' % refuted(st, ('ge', sub(c0, addc(idx, 1)))))
        tri(rep, 'insert does not move the delivery cursor', eqv.eq_lin(st, get(E, st, ref, cur), c0), 'cursor becomes %s' % get(E, st, ref, cur))
    rep.floor('insert exits for an ordered frame', n, 3)
    k = 0
    for st, v, acts, u, ref, fr, pre in insert_cases(q, REL_ORD << 5 | FRAGMENT):
        if ('kept',) in acts:
            k += 1
            idx, c0 = q.fld(fr, 'ordered_frame_index'), pre[cur]
            tri(rep, 'a fragment of a delivered message is not kept', ge(u.E, st, idx, c0), 'kept although the index may be below the cursor: %s' % refuted(st, ('ge', sub(idx, c0))))
    rep.floor('insert exits that keep a fragment', k, 1)

    # flush
    u = q.new()
    ref = q.self_arg(u, q.recv_flush)
    E = u.E
    pre = {p: get(E, u.st, ref, p) for p, t in q.leaves(q.self_ty(q.recv_flush))}
    m = FlushMon(q, ref, cur, pre, rep)
    m.ordered = om
    E.monitors.append(m)

    def part(st):
        # is the visited key the next index: kept apart until the account is settled
        b, k = st.mon.get('base') or pre[cur], st.mon.get('item')
        if not isinstance(k, Lin) or not isinstance(b, Lin):
            return None
        return st.decide(p_ne(sub(k, b)))
    E.part = part
    args = [ref] + [u.opaque(t, ('a', i), u.st) for i, t in enumerate(sig(q.P, q.recv_flush)[0][1:])]
    rets = u.call(q.recv_flush, args, u.st)
    for st, v in rets:
        m.settle(E, st, 'at the end')
        if not st.mon.get('all'):
            mm = get(E, st, ref, om)
            now = get(E, st, ref, cur)
            h = E.map_has(st, mm, now) if isinstance(mm, tuple) and mm[0] == 'M' and isinstance(now, Lin) else None
            h = st.decide(h) if h is not None and not isinstance(h, bool) else h
            early = st.mon.get('early') or any(p == om for p, _ in st.mon.get('d', ()))
            tri(rep, 'flush goes on until the next frame is missing', True if h is False else (False if early else None),
                'flush ends right after a delivery, the following frame may be there already')
        else:
            rep.ok('flush goes on until the next frame is missing')
        left = get(E, st, ref, um) if um else None
        if left is not None and isinstance(left, tuple) and left[0] == 'M':
            same = isinstance(left[4], Lin) and left[1] is pre[um][1] and st.eq_lin(left[4], pre[um][4])
            tri(rep, 'what was delivered unordered is gone', True if isinstance(left[4], Lin) and st.eq_lin(left[4], const(0)) else (False if same and m.from_maps.get(um) else None),
                'entries remain in the queue of unordered frames after the flush')
    m.finish()
    for st, v in rets:
        if not st.mon.get('uall') and m.from_maps.get(um):
            tri(rep, 'every unordered frame is delivered', None, 'not every entry is visited')
        else:
            rep.ok('every unordered frame is delivered')
    od = m.from_maps.get(om, [])
    ud = m.from_maps.get(um, [])
    rep.count('pushes of ordered frames', len(od))
    rep.count('pushes of unordered frames', len(ud))
    if not od:
        rep.und('ordered delivery', 'no push of an ordered frame was recognised')
    if not ud:
        rep.und('unordered delivery', 'no push of an unordered frame was recognised')
    order_of(q, rep, m, om, od)
    new = [f for f in find_fns(q.P) if f.p.endswith('::RecvQ::new')]
    if len(new) == 1:
        u = q.new()
        for st, v in u.call(new[0], [], u.st):
            x = u.E.get_step(st, v, cur[0]) if len(cur) == 1 else None
            if isinstance(x, Lin):
                rep.check('delivery starts at index 0', x.c == 0 and not x.t, 'the cursor starts at %s' % x)


def order_of(q, rep, m, om, od):
    """keys of the ordered map are visited in ascending order, or looked up at the cursor"""
    for st, key, ev in od:
        k = key[1] if isinstance(key, tuple) and key[0] == 'k' else key
        if not isinstance(k, Lin) or len(k.t) != 1 or k.t[0][0].key[0] != 'o':
            rep.ok('ordered frames are taken at the cursor')
            continue
        nme = k.t[0][0].key[1]
        if len(nme.key) == 2 and isinstance(nme.key[1], tuple) and nme.key[1][0] == 'e':
            b = nme.key[0]
            txt = b.key[0] if b.key and isinstance(b.key[0], str) else None
            if txt == 'sorted':
                rep.ok('ordered keys are visited in ascending order') if b.key[2] in ('sort', 'sort_unstable') and b.key[-1] is None else \
                    (rep.bad if b.key[-1] == 'contrary' else rep.und)('ordered keys are visited in ascending order', 'sorted by %s' % (b.key[2:],))
            elif txt == 'keys':
                mt = [t for p, t in q.leaves(q.self_ty(q.recv_flush)) if p == om][0]
                if q.P.types[mt]['p'].endswith('BTreeMap'):
                    rep.ok('ordered keys are visited in ascending order')
                else:
                    rep.bad('ordered keys are visited in ascending order', 'the keys are visited in the map\'s own order: a frame that is next can be passed by')
            else:
                rep.und('ordered keys are visited in ascending order', 'keys come from %s' % (b,))
        else:
            rep.ok('ordered frames are taken at the cursor')


def sequenced(rep):
    """P09"""
    q = Q()
    rep.rule('RecvQ::insert, analysed for an UnreliableSequenced and a ReliableSequenced frame against an arbitrary queue: a frame is accepted exactly '
             'when its sequenced index is at or above the remembered one, which then becomes index+1; otherwise nothing is remembered or stored.')
    rep.assume += ['HashMap behaves as documented', 'fewer than 2^32 sequenced messages per connection']
    counters = {}
    n = 0
    for r in (UNREL_SEQ, REL_SEQ):
        k = NAMES[r]
        # the tables of a unit die with the next one: judge each class before analysing the next
        cs = insert_cases(q, r << 5)
        if not any(a[0] == 'ins' for c in cs for a in c[2]):
            rep.und('%s frames' % k, 'no insertion recognised')
            continue
        ps = set()
        for st, v, acts, u, ref, fr, pre in cs:
            idx = q.fld(fr, 'sequenced_frame_index')
            if any(a[0] == 'ins' for a in acts):
                for p, x in changed(u.E, st, ref, pre).items():
                    if isinstance(x, Lin) and any(a in [b for b, _ in idx.t] for a, _ in x.t):
                        ps.add(p)
        if not rep.check('the newest accepted index is remembered (%s)' % k, len(ps) == 1, 'accepting a frame leaves no trace of its index (%d counters)' % len(ps)):
            continue
        p = counters[r] = list(ps)[0]
        for st, v, acts, u, ref, fr, pre in cs:
            E = u.E
            n += 1
            idx = q.fld(fr, 'sequenced_frame_index')
            old, now = pre[p], get(E, st, ref, p)
            ins = [a for a in acts if a[0] == 'ins']
            if ins:
                tri(rep, 'accepted only when not older than the newest (%s)' % k, ge(E, st, idx, old), 'accepted with an older index, e.g. %s' % refuted(st, ('ge', sub(idx, old))))
                tri(rep, 'accepting remembers index+1 (%s)' % k, eqv.eq_lin(st, now, addc(idx, 1)), 'remembers %s' % now)
                for a in ins:
                    rep.check('an accepted frame is stored unchanged (%s)' % k, a[3], 'the stored frame differs')
            else:
                if not any(a[0] == 'dup' for a in acts):
                    tri(rep, 'rejected only when older than the newest (%s)' % k, lt(E, st, idx, old), 'rejected although it is not older, e.g. %s' % refuted(st, ('ge', sub(old, addc(idx, 1)))))
                tri(rep, 'rejecting changes nothing (%s)' % k, eqv.eq_lin(st, now, old), 'the remembered index becomes %s' % now)
    rep.floor('insert exits for sequenced frames', n, 6)
    new = [f for f in find_fns(q.P) if f.p.endswith('::RecvQ::new')]
    if len(new) == 1:
        u = q.new()
        for st, v in u.call(new[0], [], u.st):
            for p in set(counters.values()):
                x = v
                for s in p:
                    x = u.E.get_step(st, x, s)
                if isinstance(x, Lin):
                    rep.check('every first message is new', x.c == 0 and not x.t, 'the remembered index starts at %s' % x)


# ------------------------------------------------------------------ fragments
class FragMon:
    def __init__(self, q, ref, frame, rep, roles):
        self.q, self.ref, self.frame, self.rep = q, ref, frame, rep
        self.roles = roles          # filled by the first pass: 'size', 'ord' leaves of a compound
        self.n = {}
        self.found = {}
        self.outer = None
        for p, t in q.leaves(q.self_ty(q.recv_insert)):
            tt = q.P.types[t]
            if tt['k'] == 'adt' and tt['p'].endswith('Map') and len(tt['a']) > 1:
                el = q.P.types[tt['a'][1]]
                if el['k'] == 'adt' and el.get('l') and tt['a'][1] != q.frame:
                    for p2, t2 in q.leaves(tt['a'][1]):
                        if q.is_map_of(t2, q.frame):
                            self.outer, self.cty, self.inner = p, tt['a'][1], p2

    def c(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def same(self, E, st, v):
        v = self.q.open(E, st, v)
        return isinstance(v, tuple) and v[0] == 'S' and v[1] == self.q.frame and all(
            x is y or eqq(E, st, x, y) is True for x, y in zip(v[2], self.frame[2]))

    def event(self, E, st, ev):
        if self.outer is None:
            return
        q, rep = self.q, self.rep
        if ev.kind == 'mapins':
            vt = q.open(E, st, ev.val)
            if ev.loc == self.ref[1] and ev.proj[len(self.ref[2]):] == self.outer:
                v = ev.val
                if v[0] == 'O':
                    v = E.expand(st, v)
                tri(rep, 'a compound is kept under its compound id', eqq(E, st, ev.key, q.fld(self.frame, 'compound_id')), 'kept under %s' % (ev.key,))
                for p, t in q.leaves(self.cty):
                    x = v
                    for s in p:
                        x = E.get_step(st, x, s)
                    if isinstance(x, Lin):
                        for role, fname in (('size', 'compound_size'), ('ord', 'ordered_frame_index')):
                            if eqq(E, st, x, q.fld(self.frame, fname)) is True:
                                self.found.setdefault(role, set()).add(p)
                self.c('new compounds')
                return
            if isinstance(vt, tuple) and vt[0] == 'S' and vt[1] == q.frame:
                inner = ev.proj[-len(self.inner):] == self.inner
                if inner and self.same(E, st, vt):
                    tri(rep, 'a fragment is kept under its fragment index', eqq(E, st, ev.key, q.fld(self.frame, 'fragment_index')), 'kept under %s' % (ev.key,))
                    for s in ev.proj:
                        if s[0] == 'm':
                            tri(rep, 'a fragment joins the compound of its id', eqq(E, st, s[1], q.fld(self.frame, 'compound_id')), 'joins %s' % (s[1],))
                    rep.check('a fragment does not replace another', not ev.had, 'an already stored fragment is overwritten')
                    self.c('fragments stored')
                    st.mon['stored'] = True
                elif ev.loc == self.ref[1] and ev.proj[len(self.ref[2]):] in self.oms:
                    if self.same(E, st, vt):
                        rep.bad('a lone fragment is never delivered', 'the fragment itself is put into the delivery queue')
                    tri(rep, 'a message is queued under its own ordered index', eqq(E, st, ev.key, q.fld(vt, 'ordered_frame_index')), 'queued under %s' % (ev.key,))
                    self.c('messages queued')
        elif ev.kind == 'item':
            b = key_base(ev.over)
            if b is not None and self.compound_of(b[1]) is None:
                st.mon['key'] = item_key(E, st, ev, b)
                self.settle(st)
        elif ev.kind == 'exhaust' and ev.over is not None:
            self.complete(E, st, ev.over, ev.n, ev)
        elif ev.kind == 'append':
            self.appended(E, st, ev)
        elif ev.kind == 'push':
            v = q.open(E, st, ev.val)
            if isinstance(v, tuple) and v[0] == 'S' and v[1] == q.frame:
                ol = self.roles.get('ord')
                x = q.fld(v, 'ordered_frame_index')
                self.c('messages reassembled')
                r = None
                if ol and isinstance(x, Lin) and len(x.t) == 1 and x.c == 0 and x.t[0][0].key[0] == 'o':
                    nme = x.t[0][0].key[1]
                    if nme.key[-1] == ol[0][-1][:2]:
                        r = True
                    elif len(nme.key) == 2 and isinstance(nme.key[0], Nm) and len(nme.key[0].key) == 2 and isinstance(nme.key[0].key[1], tuple) and nme.key[0].key[1][0] == 'm':
                        # another field of a table entry: of a compound, or of one of its fragments
                        r = nme.key[1] == ('f', q.fnames.index('ordered_frame_index')) if self.compound_of(nme.key[0].key[0]) is not None else False
                if r is None and eqq(E, st, x, q.fld(self.frame, 'ordered_frame_index')) is True:
                    r = True
                if r is None and isinstance(x, Lin) and not x.t:
                    r = False
                tri(rep, 'a message keeps the ordered index of its compound', r, 'reassembled with index %s' % (x,))
                st.mon['pushed'] = True
        elif ev.kind == 'maprem' and ev.loc == self.ref[1] and ev.proj[len(self.ref[2]):] == self.outer:
            st.mon['removed'] = True

    def part(self, st):
        """is the visited compound the one the fragment belongs to: kept apart"""
        k = st.mon.get('key')
        if not isinstance(k, Lin):
            return None
        return st.decide(p_ne(sub(k, self.q.fld(self.frame, 'compound_id'))))

    def compound_of(self, n):
        """the compound whose fragments map has this name"""
        if n is not None and len(n.key) == 2 and n.key[1] == self.inner[-1][:2]:
            return n.key[0]
        return None

    def keys_of(self, over):
        if not (isinstance(over, tuple) and over[0] == 'Q' and len(over[1]) == 1 and over[1][0][0] == 'sub'):
            return None
        b = over[1][0][1]
        r = b
        while r.key and r.key[0] == 'sorted':
            r = r.key[1]
        if not (r.key and r.key[0] == 'keys'):
            return None
        return b, r.key[1], r.key[2]

    def complete(self, E, st, over, n, ev):
        k = self.keys_of(over)
        if k is None:
            return
        b, m, ovl = k
        comp = self.compound_of(m)
        if comp is None or 'size' not in self.roles:
            return
        p = self.roles['size']
        nme = comp
        size = None
        for a in set(a for t in st.lins for a, _ in t) | set(T.atoms.values()):
            if a.key[0] == 'o' and len(a.key[1].key) == 2 and a.key[1].key[0] is comp and a.key[1].key[1] == p[0][-1][:2]:
                size = lin(a)
        if size is None:
            return
        self.c('reassemblies')
        tri(self.rep, 'reassembled only when every fragment is there', eqv.eq_lin(st, n, size), 'reassembled with %s fragments of %s' % (n, size))

    def appended(self, E, st, ev):
        v = ev.val
        if not (isinstance(v, tuple) and v[0] == 'Q'):
            return
        for g in v[1]:
            if g[0] != 'sub':
                continue
            n = g[1]
            if len(n.key) == 2 and n.key[1] == ('f', self.q.fnames.index('data')) and isinstance(n.key[0], Nm) and len(n.key[0].key) == 2:
                base, step = n.key[0].key
                if isinstance(step, tuple) and step[0] == 'm' and self.compound_of(base) is not None:
                    self.c('fragment bodies joined')
                    self.rep.check('the whole body of a fragment is used', g[2] is const(0) and eqv.eq_lin(st, g[3], E.len_atom(n)) is not False, 'bytes %s..+%s only' % (g[2], g[3]))
                    key = step[1]
                    kn = key.t[0][0].key[1] if isinstance(key, Lin) and len(key.t) == 1 and key.t[0][0].key[0] == 'o' else None
                    if kn is None or len(kn.key) != 2 or not isinstance(kn.key[1], tuple) or kn.key[1][0] != 'e':
                        if isinstance(key, Lin):
                            self.rep.ok('fragments are joined in the order of their index')   # looked up by a counter
                        continue
                    b = kn.key[0]
                    if b.key and b.key[0] == 'sorted':
                        if b.key[2] in ('sort', 'sort_unstable') and b.key[-1] is None:
                            self.rep.ok('fragments are joined in the order of their index')
                        else:
                            (self.rep.bad if b.key[-1] == 'contrary' else self.rep.und)('fragments are joined in the order of their index', 'sorted by %s' % (b.key[2:],))
                    elif b.key and b.key[0] == 'keys':
                        t = [t for p, t in self.q.leaves(self.cty) if p == self.inner][0]
                        self.rep.check('fragments are joined in the order of their index', self.q.P.types[t]['p'].endswith('BTreeMap'), 'fragments are joined in the map\'s own order')

    def head(self, E, st, pt):
        st.mon.pop('key', None)

    def arrive(self, E, st, pt, back):
        st.mon.pop('key', None)

    def settle(self, st):
        """at the next compound and at the end"""
        if st.mon.get('pushed'):
            self.rep.check('a reassembled compound is forgotten', st.mon.get('removed'), 'the compound stays after its message was reassembled: it would be reassembled again')
            for k in ('pushed', 'removed'):
                st.mon.pop(k, None)


def fragments(rep):
    """P19 (receiving half)"""
    q = Q()
    rep.rule('RecvQ::insert, analysed for a fragment of a ReliableOrdered message against an arbitrary queue: the fragment is kept under its own index in '
             'the compound of its id, bodies are joined whole in ascending index order, only when the compound holds as many fragments as it announces; '
             'the message is queued under the compound\'s ordered index and the compound is forgotten.')
    rep.assume += ['HashMap, Vec and sort behave as documented']
    om = where_map(q, 0, insert_cases(q, REL_ORD << 5))
    roles = {}
    for last in (False, True):
        u = q.new()
        ref = q.self_arg(u, q.recv_insert)
        fr = q.mkframe(u, REL_ORD << 5 | 16)
        r2 = rep if last else type(rep)(rep.prop, '')
        m = FragMon(q, ref, fr, r2, roles)
        m.oms = {om}
        if m.outer is None:
            rep.und('fragments', 'no map of compounds found in the receive queue')
            return
        u.E.monitors.append(m)
        u.E.part = m.part
        cur0 = {p: get(u.E, u.st, ref, p) for p, t in q.leaves(q.self_ty(q.recv_insert))}
        rets = u.call(q.recv_insert, [ref, fr], u.st)
        if not last:
            for role, ps in m.found.items():
                if len(ps) == 1:
                    roles[role] = list(ps)
    rep.check('a compound remembers how many fragments it has', len(m.found.get('size', ())) >= 1 or not m.n.get('new compounds'), 'no field of a new compound holds the announced number')
    rep.check('a compound remembers its ordered index', len(m.found.get('ord', ())) >= 1 or not m.n.get('new compounds'), 'no field of a new compound holds the ordered index')
    for k in ('new compounds', 'fragments stored', 'messages queued', 'reassemblies', 'fragment bodies joined', 'messages reassembled'):
        rep.count(k, m.n.get(k, 0))
        if not m.n.get(k):
            rep.und(k, 'none recognised')
    for st, v in rets:
        m.settle(st)
