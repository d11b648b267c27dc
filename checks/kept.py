"""The send queue keeps what is reliable until it is acknowledged, and sends it again when it is due."""
from sa.unit import sig, find_fns
from sa.terms import *
from sa import terms as tm
from sa import eqv, witness
from .arq import Q, Lost, get, tri, is_ok, NAMES, UNREL, UNREL_SEQ, REL, REL_ORD, REL_SEQ
from . import conn

NUM = (1 << 24) - 1
KINDS = ((UNREL, 0), (UNREL_SEQ, 0), (REL, 0), (REL_ORD, 0), (REL_ORD, 16), (REL_SEQ, 0))
RELIABLE = (REL, REL_ORD, REL_SEQ)

KEEP = 'a reliable message stays queued until it is acknowledged'
SENDS = 'a message leaves the queue only by being sent'
WHOLE = 'what is sent is the message, unchanged'
ONCE = 'a message is handed out once in a flush'
DUE = 'an unacknowledged message is sent again when its timeout has passed'
EARLY = 'a message is not sent again before its timeout has passed'
AGAIN = 'a message marked for sending again is sent again'
TIMER = 'sending again starts the timeout again'
MATCH = 'every number a message was sent under acknowledges it'
ACKED = 'an acknowledged message leaves the queue'
FRESH = 'what is sent gets a number not used before'
OTHER = 'what is sent was queued'
EMPTY = 'the queue counts as empty only when nothing waits to be sent or acknowledged'
BOUND = 'the timeout stays within its bounds'


BLIND = [None]      # the engine whose run is being judged


def can_all(st, *ps):
    """can the conditions hold on this path: an assignment counts only if every fact about what it mentions can be evaluated"""
    old = witness.STRICT[0]
    witness.STRICT[0] = True
    try:
        r = conn.can_all(st, *ps)
        # what a function that is not followed gives back cannot be chosen
        return None if r and BLIND[0] and BLIND[0].unknown else r
    finally:
        witness.STRICT[0] = old


def items(E, st, q):
    """the items of a fully known list, else None"""
    if not (isinstance(q, tuple) and q[0] == 'Q'):
        return None
    out = []
    for g in q[1]:
        if g[0] != 'one':
            return None
        out.append(g[1])
    for k, v in q[2]:
        if not is_const(k) or not 0 <= k.c < len(out):
            return None
        out[k.c] = v
    return [E.expand(st, v) if isinstance(v, tuple) and v[0] == 'O' else v for v in out]


class SQ:
    def __init__(self, rep):
        q = self.q = Q()
        P = self.P = q.P
        self.rep = rep
        self.n = {}
        self.sent = self.pend = None
        for p, t in q.leaves(q.self_ty(q.send_flush)):
            tt = P.types[t]
            if tt['k'] != 'adt' or tt['p'].split('::')[-1] not in ('Vec', 'VecDeque') or not tt.get('a'):
                continue
            e = tt['a'][0]
            if e == q.frame:
                if self.pend is not None:
                    raise Lost('two lists of frames')
                self.pend = p
            elif q.frame in self.parts(e):
                if self.sent is not None:
                    raise Lost('two lists of sent frames')
                self.sent, self.ety = p, e
        if self.sent is None or self.pend is None:
            raise Lost('the lists of the send queue')
        self.fi = self.parts(self.ety).index(q.frame)
        self.role = {}
        for name, f in (('flag', lambda t: P.types[t]['k'] == 'bool'), ('time', lambda t: P.ts(t) in ('i64', 'u64', 'i128', 'u128')),
                        ('times', lambda t: P.ts(t) in ('u32', 'usize', 'u8', 'u16', 'i32')), ('nums', lambda t: P.types[t]['k'] == 'adt' and P.types[t]['p'].endswith('Vec') and P.ts(P.types[t]['a'][0]) == 'u32')):
            c = [i for i, t in enumerate(self.parts(self.ety)) if f(t)]
            self.role[name] = c[0] if len(c) == 1 else None
        self.waiting = True

    def parts(self, t):
        """field types of a tuple or local struct"""
        tt = self.P.types[t]
        if tt['k'] == 'tuple':
            return list(tt['a'])
        if tt['k'] == 'adt' and tt.get('l') and tt.get('ak') == 'struct':
            return [ft for _, ft in tt['v'][0]['f']]
        return []

    # ---- a queue with chosen contents
    def make(self, f, sent=(), pend=(), unroll=4):
        q = self.q
        u = q.new()
        E = u.E
        E.unroll = unroll
        BLIND[0] = E
        args = [u.opaque(t, ('a', i), u.st) for i, t in enumerate(sig(self.P, f)[0])]
        ref = args[0]
        pre = {p: get(E, u.st, ref, p) for p, t in q.leaves(q.self_ty(f))}
        # no number has been used that the counter has not passed
        self.u, self.E, self.ref, self.args, self.pre = u, E, ref, args, pre
        self.F = [self.entry(i, r, fl, flag, n) for i, (r, fl, flag, n) in enumerate(sent)]
        self.G = [q.mkframe(u, (r << 5) | fl, 'G%d' % i) for i, (r, fl) in enumerate(pend)]
        E.put(u.st, ref[1], ref[2] + self.sent, ('Q', tuple(('one', x) for x in self.F), ()))
        E.put(u.st, ref[1], ref[2] + self.pend, ('Q', tuple(('one', x) for x in self.G), ()))
        for p, x in pre.items():
            if isinstance(x, Lin) and len(x.t) == 1:
                t = [t for k, t in q.leaves(q.self_ty(f)) if k == p][0]
                if self.P.ts(t) in ('u32', 'u64'):
                    u.st.assume(p_ge(sub(const(NUM), x)))
        return u, E

    def entry(self, i, r, fl, flag, n):
        q, u = self.q, self.u
        fr = q.mkframe(u, (r << 5) | fl, 'F%d' % i)
        u.st.assume(p_ge(sub(const(NUM), q.fld(fr, 'sequence_number'))))
        vals = []
        for k, t in enumerate(self.parts(self.ety)):
            if k == self.fi:
                vals.append(fr)
            elif k == self.role['flag']:
                vals.append(flag)
            elif k == self.role['times']:
                vals.append(const(n))
            elif k == self.role['nums']:
                # the numbers it was sent under, the current one last
                old = lin(atom(('o', nm(('unit', ('old', i)))), 0, NUM))
                vals.append(('Q', (('one', old), ('one', q.fld(fr, 'sequence_number'))), ()))
            else:
                vals.append(u.opaque(t, ('e', i, k), u.st))
        tt = self.P.types[self.ety]
        return ('T', tuple(vals)) if tt['k'] == 'tuple' else ('S', self.ety, tuple(vals))

    def part(self, e, k):
        v = e[1] if e[0] == 'T' else e[2]
        return v[k]

    def nums(self, e):
        """the numbers under which an entry can be acknowledged: its frame's and those remembered"""
        r = [self.q.fld(self.part(e, self.fi), 'sequence_number')]
        k = self.role['nums']
        if k is not None:
            v = self.part(e, k)
            r += [g[1] for g in v[1] if g[0] == 'one'] if isinstance(v, tuple) and v[0] == 'Q' else []
        return r

    def after(self, st):
        """(entries, frames) queued at an exit"""
        E = self.E
        s, p = (items(E, st, get(E, st, self.ref, x)) for x in (self.sent, self.pend))
        if s is not None:
            s = [x for x in s]
            for i, x in enumerate(s):
                fr = self.part(x, self.fi) if isinstance(x, tuple) and x[0] in 'TS' else None
                if isinstance(fr, tuple) and fr[0] == 'O':
                    fr = E.expand(st, fr)
                    v = list(x[1] if x[0] == 'T' else x[2])
                    v[self.fi] = fr
                    s[i] = ('T', tuple(v)) if x[0] == 'T' else ('S', x[1], tuple(v))
        return s, p

    def is_it(self, fr, orig):
        """is the frame the one that was queued (its payload is)"""
        return isinstance(fr, tuple) and fr[0] == 'S' and self.q.fld(fr, 'data') == self.q.fld(orig, 'data')

    def find(self, l, orig):
        return [x for x in l if self.is_it(x, orig)]

    def unknown(self, l, known):
        """frames that are none of the queued ones"""
        return [x for x in l if not any(self.is_it(x, o) for o in known)]

    def unchanged(self, st, fr, orig, at):
        for n in self.q.fnames:
            if n in ('sequence_number', 'id'):
                continue
            a, b = self.q.fld(fr, n), self.q.fld(orig, n)
            r = eqv.eq(self.E, st, a, b)
            if r is None and isinstance(a, Lin) and isinstance(b, Lin) and witness.nonzero(st, sub(a, b)):
                r = False
            tri(self.rep, WHOLE, r, 'its %s becomes %s, %s' % (n, str(a)[:100], at))

    def c(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    # ---- rules for one exit
    def exit(self, st, ret, at, acked=None):
        """ret: frames handed out, or None; acked: indices of entries that may leave"""
        rep = self.rep
        s, p = self.after(st)
        ff = [self.part(x, self.fi) for x in self.F]
        known = ff + self.G
        if s is None or p is None or ret is None:
            rep.und(KEEP, 'the lists are not known item by item %s' % at)
            return None
        fs = [self.part(x, self.fi) for x in s]
        if self.unknown(fs + p, known):
            rep.und(KEEP, 'the lists hold something else %s' % at)
            return None
        odd = self.unknown(ret, known)
        if odd:
            rep.und(OTHER, '%s %s' % (str(odd[0])[:200], at))
        for i, o in enumerate(known):
            kept, out, wait = self.find(fs, o), self.find(ret, o), self.find(p, o)
            rel = (self.q.fld(o, 'flags').c >> 5) & 7
            what = 'the %s message %s' % (NAMES[rel], 'already sent' if i < len(ff) else 'not yet sent')
            for x in out + kept + wait:
                self.unchanged(st, x, o, at)
            rep.check(ONCE, len(out) <= 1, '%s is handed out %d times %s' % (what, len(out), at))
            rep.check(ONCE, len(kept) <= 1 and len(wait) <= 1 and not (kept and wait), '%s is queued twice %s' % (what, at))
            gone = not kept and not wait
            if rel in RELIABLE:
                if gone and acked is not None and i in acked:
                    continue
                rep.check(KEEP, not gone, '%s is no longer queued %s' % (what, at))
                if i >= len(ff):
                    rep.check(SENDS, bool(out) == bool(kept), '%s is %s %s' % (what, 'sent but does not wait for its acknowledgement' if out else 'not sent', at))
            else:
                rep.check(SENDS, not gone or out, '%s is neither sent nor queued %s' % (what, at))
                rep.check(SENDS, not (wait and out), '%s is sent and stays queued %s' % (what, at))
            if kept:
                e = next(x for x in s if self.is_it(self.part(x, self.fi), o))
                have = self.nums(e)
                need = [(self.q.fld(x, 'sequence_number'), 'the number it is sent under now') for x in out]
                if i < len(ff):
                    need += [(x, 'a number it was sent under before') for x in self.nums(self.F[i])]
                for x, why in need:
                    r = any(eqv.eq_lin(st, x, h) is True for h in have)
                    if not r and any(isinstance(y, tuple) for y in have):
                        r = None
                    k = self.role['nums']
                    v = self.part(e, k) if k is not None else None
                    whole = k is None or isinstance(v, tuple) and v[0] == 'Q' and not v[2] and all(g[0] == 'one' for g in v[1])
                    if r:
                        rep.ok(MATCH)
                    elif whole and all(isinstance(h, Lin) for h in have) and can_all(st, *[p_not(p_eq(sub(x, h))) for h in have]):
                        rep.bad(MATCH, '%s (%s) of %s is forgotten %s' % (why, x, what, at))
                    else:
                        rep.und(MATCH, '%s %s' % (why, at))
        return s, p

    # ---- flush
    def flush(self):
        rep, q = self.rep, self.q
        f = q.send_flush
        a = sig(self.P, f)[0]
        self.ticks = [i for i, t in enumerate(a) if self.P.ts(t) in ('i64', 'u64', 'i128', 'u128')]
        # what has not been sent yet
        for r, fl in KINDS:
            for k in (1, 2):
                u, E = self.make(f, pend=[(r, fl)] * k)
                for st, v in u.call(f, self.args, u.st):
                    self.c('flushes of new messages')
                    at = 'when %d new %s message%s flushed' % (k, NAMES[r], 's are' if k > 1 else ' is')
                    out = items(E, st, v)
                    x = self.exit(st, out, at)
                    if not x or out is None:
                        continue
                    rep.check('a new message is sent', len(out) >= 1, 'nothing is sent %s' % at)
                    self.order(st, out, at)
                    self.fresh(st, out, at)
                    if r in RELIABLE and x[0] and self.role['flag'] is not None:
                        w = self.part(x[0][0], self.role['flag'])
                        if isinstance(w, bool):
                            self.waiting = w
                        t = self.role['time']
                        if t is not None and len(self.ticks) == 1:
                            tri(rep, TIMER, eqv.eq_lin(st, self.part(x[0][0], t), self.args[self.ticks[0]]), 'its time becomes %s %s' % (self.part(x[0][0], t), at))
        # two of different kinds
        for r1, f1 in KINDS:
            for r2, f2 in KINDS:
                if (r1, f1) < (r2, f2) or r1 not in RELIABLE and r2 in RELIABLE:
                    u, E = self.make(f, pend=[(r1, f1), (r2, f2)])
                    for st, v in u.call(f, self.args, u.st):
                        self.exit(st, items(E, st, v), 'when a %s and a %s message are flushed' % (NAMES[r1], NAMES[r2]))
        # what waits for its acknowledgement
        for k in (1, 2):
            for pend in ([], [(REL_ORD, 0)], [(UNREL, 0)]):
                for n in (0, 1, 2, 3, 8):
                    if n and (k > 1 or pend):
                        continue
                    u, E = self.make(f, sent=[(REL_ORD, 0, self.waiting, n)] * k, pend=pend, unroll=10)
                    rto = self.timeout(u, E, n)
                    for st, v in u.call(f, self.args, u.st):
                        self.c('flushes of unacknowledged messages')
                        at = 'when an unacknowledged message%s is flushed, sent again %d times before' % (' and a new one' if pend else '', n)
                        out = items(E, st, v)
                        x = self.exit(st, out, at)
                        if x and out is not None:
                            self.fresh(st, self.find_all(out, range(k)), at)
                            self.timely(st, out, x[0], k, n, rto, at)
        # of every kind
        for r, fl in KINDS:
            if r in RELIABLE:
                u, E = self.make(f, sent=[(r, fl, self.waiting, 0)])
                for st, v in u.call(f, self.args, u.st):
                    self.exit(st, items(E, st, v), 'when an unacknowledged %s%s message is flushed' % (NAMES[r], ' fragment' if fl else ''))
        # what is marked
        if self.role['flag'] is not None:
            for k in (1, 2):
                for n in (0, 3):
                    u, E = self.make(f, sent=[(REL, 0, not self.waiting, n)] * k, pend=[(REL, 0)], unroll=10)
                    for st, v in u.call(f, self.args, u.st):
                        at = 'when a marked message is flushed'
                        out = items(E, st, v)
                        x = self.exit(st, out, at)
                        if x and out is not None:
                            for e in self.F:
                                rep.check(AGAIN, self.find(out, self.part(e, self.fi)), at)
                            self.restarted(st, out, x[0], at)

    # ---- several steps in a row
    def history(self):
        """a message sent, asked for and sent again: each of its numbers acknowledges it, and no other"""
        rep, q = self.rep, self.q
        ff, fa = q.send_flush, q.send_ack
        fn = [f for f in find_fns(self.P) if f.p.endswith('::SendQ::nack')]
        si = [i for i, t in enumerate(sig(self.P, fa)[0]) if self.P.ts(t) == 'u32']
        ti = lambda f: [i for i, t in enumerate(sig(self.P, f)[0]) if self.P.ts(t) == 'i64']
        if len(fn) != 1 or len(si) != 1 or any(len(ti(f)) != 1 for f in (ff, fa, fn[0])) or self.rto is None or self.seqno is None or self.last is None:
            rep.und(MATCH, 'the operations are not recognised')
            return
        ni = [i for i, t in enumerate(sig(self.P, fn[0])[0]) if self.P.ts(t) == 'u32'][0]
        for steps in ('F', 'FF', 'FNF', 'FFF'):
            u, E = self.make(ff, pend=[(REL_ORD, 0)], unroll=6)
            t0 = self.args[ti(ff)[0]]
            E.put(u.st, self.ref[1], self.ref[2] + self.rto, const(100))
            states = [(u.st, [])]
            for k, s in enumerate(steps):
                now = addc(t0, k * 10000)
                nxt = []
                for st, used in states:
                    if s == 'F':
                        a = list(self.args)
                        a[ti(ff)[0]] = now
                        for st2, v in u.call(ff, a, st):
                            out = items(E, st2, v)
                            if out is None or len(self.find(out, self.G[0])) != 1:
                                rep.und(DUE, 'what the %d. flush of %s hands out' % (k + 1, steps))
                                continue
                            n = q.fld(self.find(out, self.G[0])[0], 'sequence_number')
                            if not isinstance(n, Lin):
                                rep.und(MATCH, steps)
                                continue
                            for o in used:
                                tri(rep, FRESH, {True: False, False: True}.get(eqv.eq_lin(st2, n, o)), 'a message is sent again under the number it had (%s)' % steps)
                            nxt.append((st2, used + [n]))
                    else:
                        a = [None] * len(sig(self.P, fn[0])[0])
                        a[0] = self.ref
                        a[ti(fn[0])[0]] = now
                        a[ni] = used[-1]
                        if None in a:
                            rep.und(MATCH, 'SendQ::nack')
                            return
                        for st2, v in u.call(fn[0], a, st):
                            nxt.append((st2, used))
                states = nxt
            self.c('histories of %d steps' % len(steps))
            for st, used in states:
                for i, n in enumerate(used):
                    s2 = st.copy()
                    E.put(s2, self.ref[1], self.ref[2] + self.last, addc(n, -1))
                    a = [None] * len(sig(self.P, fa)[0])
                    a[0], a[si[0]], a[ti(fa)[0]] = self.ref, n, addc(t0, 100000)
                    if None in a:
                        rep.und(MATCH, 'SendQ::ack')
                        return
                    at = 'sent %d times (%s), acknowledged under its %d. number' % (len(used), steps, i + 1)
                    for s3, _ in u.call(fa, a, s2):
                        left, _p = self.after(s3)
                        if left is None:
                            rep.und(MATCH, at)
                            continue
                        still = self.find([self.part(x, self.fi) for x in left], self.G[0])
                        ok = not still
                        if not ok and can_all(s3) is not True:
                            rep.und(MATCH, at)
                        else:
                            rep.check(MATCH, ok, 'it stays queued, %s' % at)

    def find_all(self, out, idx):
        return [x for x in out if any(self.is_it(x, self.part(self.F[i], self.fi)) for i in idx)]

    def timeout(self, u, E, n):
        """the timeout in force: a field; a fixed amount where it grows (by halves, in floating point)"""
        p = self.rto
        if p is None:
            return None
        if n:
            E.put(u.st, self.ref[1], self.ref[2] + p, const(1000))
            return const(1000)
        return self.pre[p]

    def timely(self, st, out, s, k, n, rto, at):
        rep = self.rep
        if rto is None or self.role['time'] is None or len(self.ticks) != 1:
            rep.und(DUE, 'no timeout recognised')
            return
        now = self.args[self.ticks[0]]
        hi = rto if not n else const(int(1000 * 1.5 ** n) + 1)
        for e in self.F:
            fr = self.part(e, self.fi)
            gone = sub(now, self.part(e, self.role['time']))
            if self.find(out, fr):
                self.c('sent again')
                r = can_all(st, p_not(p_ge(sub(gone, rto))))
                tri(rep, EARLY, None if r is None else not r, 'it is sent again with less than its timeout gone %s' % at)
            else:
                self.c('not yet sent again')
                r = can_all(st, p_ge(sub(gone, hi)))
                tri(rep, DUE, None if r is None else not r, 'it is not sent with its timeout gone %s' % at)
        self.restarted(st, out, s, at)

    def restarted(self, st, out, s, at):
        t, w = self.role['time'], self.role['flag']
        for e in s:
            if self.find(out, self.part(e, self.fi)):
                if t is not None and len(self.ticks) == 1:
                    tri(self.rep, TIMER, eqv.eq_lin(st, self.part(e, t), self.args[self.ticks[0]]), 'its time becomes %s %s' % (self.part(e, t), at))
                if w is not None:
                    x = self.part(e, w)
                    if isinstance(x, bool):
                        self.rep.check(TIMER, x == self.waiting, 'it stays marked for sending again %s' % at)
                    else:
                        self.rep.und(TIMER, at)

    def order(self, st, out, at):
        """new messages are sent in the order in which they were queued"""
        idx = [next((i for i, g in enumerate(self.G) if self.is_it(x, g)), None) for x in out]
        if None not in idx:
            self.rep.check('new messages are sent in the order they were queued', idx == sorted(idx), at)

    def fresh(self, st, out, at):
        """numbers: from the counter upwards, and the counter has passed them"""
        rep, q, E = self.rep, self.q, self.E
        xs = [q.fld(x, 'sequence_number') for x in out]
        if self.seqno is None or not xs:
            return
        pre, now = self.pre[self.seqno], get(E, st, self.ref, self.seqno)
        for i, x in enumerate(xs):
            if not isinstance(x, Lin) or not isinstance(now, Lin):
                rep.und(FRESH, at)
                continue
            for cond, why in ((p_ge(sub(x, pre)), 'below the counter'), (p_ge(addc(sub(now, x), -1)), 'not passed by the counter')) + \
                    tuple((p_not(p_eq(sub(x, y))), 'the number of another') for y in xs[:i] if isinstance(y, Lin)):
                r = st.decide(cond)
                if r is not True and can_all(st, p_not(cond) if not isinstance(cond, bool) else not cond):
                    r = False
                tri(rep, FRESH, r if r is not None else None, 'a message is sent under %s, %s (%s) %s' % (x, why, pre, at))

    # ---- roles of the counters and the timeout
    def learn(self):
        """the counter whose value numbers what is sent; the field a first resending waits for"""
        q = self.q
        f = q.send_flush
        self.ticks = [i for i, t in enumerate(sig(self.P, f)[0]) if self.P.ts(t) in ('i64', 'u64', 'i128', 'u128')]
        self.seqno = self.rto = None
        u, E = self.make(f, pend=[(REL, 0)])
        hit = set()
        for st, v in u.call(f, self.args, u.st):
            for x in items(E, st, v) or ():
                if x[0] == 'S':
                    n = q.fld(x, 'sequence_number')
                    hit |= {p for p, y in self.pre.items() if isinstance(y, Lin) and y is n}
                    w = self.after(st)[0]
        if len(hit) == 1:
            self.seqno = hit.pop()
        names = {p: q.P.types[q.self_ty(f)]['v'][0]['f'][p[0][1]][0] for p in self.pre if len(p) == 1}
        c = [p for p, n in names.items() if n == 'rto']
        # get_rto gives it
        g = [x for x in find_fns(self.P) if x.p.endswith('::SendQ::get_rto')]
        if len(g) == 1:
            u, E = self.make(g[0])
            for st, v in u.call(g[0], self.args, u.st):
                c = [p for p, y in self.pre.items() if y is v] or c
        self.rto = c[0] if len(c) == 1 else None

        self.last = None
        si = [i for i, t in enumerate(sig(self.P, q.send_ack)[0]) if self.P.ts(t) == 'u32']
        u, E = self.make(q.send_ack)
        hit = None
        for st, v in u.call(q.send_ack, self.args, u.st):
            h = {p for p in self.pre if get(E, st, self.ref, p) is self.args[si[0]]} if len(si) == 1 else set()
            hit = h if hit is None else hit & h
        if hit and len(hit) == 1:
            self.last = hit.pop()

    # ---- acknowledgement
    def ack(self):
        rep, q = self.rep, self.q
        f = q.send_ack
        a = sig(self.P, f)[0]
        si = [i for i, t in enumerate(a) if self.P.ts(t) == 'u32']
        if len(si) != 1:
            rep.und(ACKED, 'which argument is the number')
            return
        for k, pend, gap in ((1, [], None), (1, [(REL_ORD, 0)], None), (2, [], None), (2, [(REL_ORD, 0)], None),
                             (1, [], 0), (1, [(REL_ORD, 0)], 1), (1, [], 2), (2, [], 1)):
            if self.last is None:
                rep.und(ACKED, 'the number acknowledged last is not recognised')
                break
            u, E = self.make(f, sent=[(REL_ORD, 0, self.waiting, 0)] * k, pend=pend, unroll=4)
            last = self.pre[self.last]
            # in order, or passing over some numbers, which are then asked for
            s = self.args[si[0]]
            if gap is None:
                u.st.assume(p_ge(sub(addc(last, 1), s)))
            else:
                s = self.args[si[0]] = addc(last, gap + 1)
            self.used(u, s)
            for i in range(k):
                for j in range(i):
                    for x in self.nums(self.F[i])[1:]:
                        for y in self.nums(self.F[j])[1:]:
                            u.st.assume(p_not(p_eq(sub(x, y))))
            mine = [self.nums(e) for e in self.F]
            over = [addc(last, g + 1) for g in range(gap or 0)]
            E.part = lambda st: tuple(st.decide(p_eq(sub(y, x))) for y in [s] + over for m in mine for x in m)
            for st, v in u.call(f, self.args, u.st):
                self.c('acknowledgements')
                at = 'when a number is acknowledged%s%s' % (' and two messages wait' if k > 1 else '', ', %d being passed over' % gap if gap else '')
                left, _ = self.after(st)
                if left is None:
                    rep.und(KEEP, at)
                    continue
                fs = [self.part(x, self.fi) for x in left]
                out = set()
                for i in range(k):
                    if self.find(fs, self.part(self.F[i], self.fi)):
                        r = [can_all(st, p_eq(sub(s, x))) for x in mine[i]]
                        tri(rep, ACKED, False if True in r else True if all(y is False for y in r) else None, 'it stays queued %s that it was sent under' % at)
                    else:
                        out.add(i)
                        self.c('messages acknowledged')
                        r = can_all(st, *[p_not(p_eq(sub(s, x))) for x in mine[i]])
                        tri(rep, KEEP, None if r is None else not r, 'a message is dropped by the acknowledgement of a number it was not sent under')
                self.exit(st, [], at, acked=out)

    def used(self, u, *more):
        """all numbers in use, and those the peer names, are below the counter"""
        if self.seqno is None:
            return
        c = self.pre[self.seqno]
        for x in [y for e in self.F for y in self.nums(e)] + list(more):
            u.st.assume(p_ge(addc(sub(c, x), -1)))

    def nack(self):
        rep, q = self.rep, self.q
        fs = [f for f in find_fns(self.P) if f.p.endswith('::SendQ::nack')]
        if len(fs) != 1:
            rep.und(KEEP, 'SendQ::nack')
            return
        f = fs[0]
        for flag in (self.waiting, not self.waiting):
            for k in (1, 2):
                u, E = self.make(f, sent=[(REL_ORD, 0, flag, 1)] * k, pend=[(REL_ORD, 0)])
                for st, v in u.call(f, self.args, u.st):
                    self.c('requests')
                    x = self.exit(st, [], 'when a number is asked for')
                    if x:
                        fs = [self.part(y, self.fi) for y in x[0]]
                        old = {id(y): next((self.q.fld(self.part(e, self.fi), 'sequence_number') for e in self.F if self.is_it(y, self.part(e, self.fi))), None) for y in fs}
                        self.fresh(st, [y for y in fs if self.q.fld(y, 'sequence_number') is not old[id(y)]], 'when a number is asked for')

    def insert(self):
        rep, q = self.rep, self.q
        from .sendq import reliability_arg, rel_value
        f = q.send_insert
        ri, rty = reliability_arg(q, f)
        for r in (UNREL, UNREL_SEQ, REL, REL_ORD, REL_SEQ):
            u, E = self.make(f, sent=[(REL_ORD, 0, self.waiting, 1)], unroll=0)
            self.args[ri] = rel_value(q, rty, r)
            for st, v in u.call(f, self.args, u.st):
                self.c('insertions')
                s = get(E, st, self.ref, self.sent)
                rep.check(KEEP, s == ('Q', tuple(('one', x) for x in self.F), ()), 'inserting a %s message changes what waits for its acknowledgement' % NAMES[r]) \
                    if isinstance(s, tuple) and s[0] == 'Q' else rep.und(KEEP, 'insert')

    def empty(self):
        rep = self.rep
        fs = [f for f in find_fns(self.P) if f.p.endswith('::SendQ::is_empty')]
        for f in fs:
            for a, b in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (0, 2)):
                u, E = self.make(f, sent=[(REL, 0, self.waiting, 0)] * a, pend=[(REL, 0)] * b)
                for st, v in u.call(f, self.args, u.st):
                    d = v if isinstance(v, bool) else st.decide(v) if isinstance(v, tuple) else None
                    if d is None:
                        rep.und(EMPTY, str(v)[:100])
                    else:
                        rep.check(EMPTY, d == (a + b == 0), 'it is %s with %d unacknowledged and %d unsent' % ('empty' if d else 'not empty', a, b))

    def bounds(self):
        """the timeout: bounds established by new, kept by acknowledgements"""
        rep, q = self.rep, self.q
        if self.rto is None:
            rep.und(BOUND, 'no timeout recognised')
            return
        f = [f for f in find_fns(self.P) if f.p.endswith('::SendQ::new')]
        if len(f) != 1:
            rep.und(BOUND, 'SendQ::new')
            return
        u = q.new()
        for st, v in u.call(f[0], [u.opaque(t, ('a', i), u.st) for i, t in enumerate(sig(self.P, f[0])[0])], u.st):
            x = v
            for s in self.rto:
                x = u.E.get_step(st, x, s)
            if isinstance(x, Lin):
                lo, hi = st.rng(x)
                rep.check(BOUND, lo >= 1 and hi <= 60000, 'it starts in %s..%s' % (lo, hi))
        for name in ('ack', 'nack', 'flush'):
            f = q.method('SendQ', name)
            u, E = self.make(f, sent=[(REL, 0, self.waiting, 0)])
            x = self.pre[self.rto]
            u.st.assume(p_ge(addc(x, -50)))
            u.st.assume(p_ge(sub(const(12000), x)))
            for st, v in u.call(f, self.args, u.st):
                y = get(E, st, self.ref, self.rto)
                if not isinstance(y, Lin):
                    rep.und(BOUND, str(y)[:100])
                    continue
                self.c('timeouts')
                r = st.decide(p_ge(addc(y, -50))) is True and st.decide(p_ge(sub(const(12000), y))) is True
                if r:
                    rep.ok(BOUND)
                    continue
                lo, hi = st.rng(y)
                # an estimate that is not clamped at all has the range of its type
                tri(rep, BOUND, False if lo < 0 or hi > 60000 else None, '%s leaves it in %s..%s' % (name, lo, hi))

    def all(self):
        self.learn()
        self.flush()
        self.history()
        self.ack()
        self.nack()
        self.insert()
        self.empty()
        self.bounds()
        for k in ('flushes of new messages', 'flushes of unacknowledged messages', 'acknowledgements', 'requests', 'insertions'):
            self.rep.floor(k, self.n.get(k, 0), 1)
        for k in ('sent again', 'not yet sent again', 'messages acknowledged', 'timeouts'):
            self.rep.count(k, self.n.get(k, 0))
            if not self.n.get(k):
                self.rep.und(DUE, '%s: none seen' % k)


def run(rep):
    rep.rule('SendQ::flush, ack, nack and insert, each analysed for an arbitrary send queue that holds up to two messages of every reliability waiting to be sent or '
             'acknowledged (payloads, numbers, times arbitrary): which messages are handed out, which are queued afterwards, under which numbers and with which timers.')
    rep.assume += ['the peer acknowledges only numbers that were sent', 'fewer than 2^24 datagrams per connection', 'clock values do not overflow an i64']
    SQ(rep).all()
