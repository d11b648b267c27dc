"""The send half of the reliability layer: numbering, fragmentation, retention, resending, timers."""
from sa.unit import sig, find_fns
from sa.terms import *
from sa import terms as tm
from sa.state import State
from sa import eqv, witness
from .arq import Q, Lost, get, tri, ge, lt, refuted, eqq, changed, is_ok, NAMES, UNREL, UNREL_SEQ, REL, REL_ORD, REL_SEQ

IP_UDP = 28


def header(r, frag):
    n = 4 + 1 + 2
    if r in (REL, REL_ORD, REL_SEQ):
        n += 3
    if r in (UNREL_SEQ, REL_SEQ):
        n += 3
    if r in (UNREL_SEQ, REL_ORD, REL_SEQ):
        n += 4
    return n + (10 if frag else 0)


def reliability_arg(q, f):
    """(index of the reliability argument, its type, {number: value})"""
    P = q.P
    for i, t in enumerate(sig(P, f)[0]):
        tt = P.types[t]
        if tt['k'] == 'adt' and tt.get('ak') == 'enum' and [v['n'] for v in tt['v']] == NAMES:
            return i, t
        if tt['k'] == 'adt' and tt['p'].endswith('::Reliability'):
            return i, t
    raise Lost('reliability argument')


def rel_value(q, ty, r):
    vs = q.P.types[ty]['v']
    for i, v in enumerate(vs):
        if v['n'] == NAMES[r]:
            return ('E', ty, const(v['d']), ((i, ()),))
    raise Lost('Reliability::' + NAMES[r])


def buf_arg(q, u, f):
    """the message bytes argument"""
    P = q.P
    a = sig(P, f)[0]
    for i, t in enumerate(a):
        s = P.ts(t)
        if '[u8]' in s or 'Vec<u8>' in s:
            return i
    raise Lost('message argument')


def leaf_val(E, st, v, proj):
    for s in proj:
        v = E.get_step(st, v, s)
    return v


class InsMon:
    """accounts for the frames queued by one insert"""

    def __init__(self, q, u, ref, pre, bufn, rep, r, roles, learn):
        self.q, self.u, self.ref, self.pre, self.bufn, self.rep, self.r = q, u, ref, pre, bufn, rep, r
        self.roles, self.learn = roles, learn
        self.k = NAMES[r]
        self.ints = [p for p, v in pre.items() if isinstance(v, Lin)]
        self.pushes = []
        self.chunk = None

    def base(self, st, p):
        return st.mon.get('b', {}).get(p, self.pre[p]) if isinstance(st.mon.get('b'), dict) else dict(st.mon.get('b', ())).get(p, self.pre[p])

    def event(self, E, st, ev):
        if ev.kind != 'push' or ev.ref[1] != self.ref[1]:
            return
        proj = ev.ref[2][len(self.ref[2]):]
        if proj != self.roles['queue']:
            return
        q = self.q
        v = q.open(E, st, ev.val)
        if not (isinstance(v, tuple) and v[0] == 'S' and v[1] == q.frame):
            return
        n = st.mon.get('n', 0)
        now = get(E, st, self.ref, proj)
        done = sub(E.seq_len(now), E.seq_len(self.pre[proj])) if isinstance(now, tuple) and now[0] == 'Q' else None
        self.pushes.append(1)
        witness.COUNT[0] = True
        try:
            self.judge(E, st, v, n, done)
        finally:
            witness.COUNT[0] = False
        st.mon['n'] = n + 1

    def judge(self, E, st, v, n, done):
        q, rep, k = self.q, self.rep, self.k
        if self.learn is not None:
            for name in ('reliable_frame_index', 'sequenced_frame_index', 'ordered_frame_index', 'compound_id'):
                x = q.fld(v, name)
                for p in self.ints:
                    if n == 0 and isinstance(x, Lin) and (x is self.base(st, p) or (not st.mon.get('in') and x is self.pre[p])):
                        self.learn.setdefault((name, self.r), set()).add(p)
            return
        fl = q.fld(v, 'flags')
        frag = None
        if isinstance(fl, Lin) and not fl.t:
            frag = bool(fl.c & 16)
            rep.check('a %s message is marked as such' % k, (fl.c >> 5) & 7 == self.r, 'queued with reliability bits %d' % ((fl.c >> 5) & 7))
            if self.r != REL_ORD:
                rep.check('only ordered messages are fragmented', not frag, 'a %s frame carries the fragment flag' % k)
        else:
            rep.und('flags', 'flags of a queued frame are %s' % (fl,))
        st.mon['frag'] = frag
        rp = self.roles.get('reliable_frame_index')
        if self.r in (REL, REL_ORD, REL_SEQ) and rp is not None:
            x = q.fld(v, 'reliable_frame_index')
            r = eqv.eq_lin(st, x, add(self.pre[rp], done)) if done is not None else None
            if r is not True and eqv.eq_lin(st, x, addc(self.base(st, rp), n)) is True and st.mon.get('in'):
                r = True
            tri(rep, 'reliable frames are numbered consecutively', r, '%s frame number %s of a message gets reliable index %s, the counter stood at %s' % (k, done, x, self.pre[rp]))
        for name, rs in (('ordered_frame_index', (REL_ORD,)), ('sequenced_frame_index', (UNREL_SEQ, REL_SEQ))):
            p = self.roles.get(name)
            if self.r in rs and p is not None:
                tri(rep, 'the %s of a message is its counter\'s value' % name.replace('_', ' '), eqv.eq_lin(st, q.fld(v, name), self.pre[p]),
                    '%s frame gets %s %s, the counter stood at %s' % (k, name, q.fld(v, name), self.pre[p]))
        data = q.fld(v, 'data')
        part = self.slice_of(data)
        blen = E.len_atom(self.bufn)
        if part is None or frag and is_const(part[1]) and part[1].c == 0:
            rep.und('payload', 'payload of a queued frame is not a slice of the message')
            return
        off, ln = part
        cnt = q.fld(v, 'length_in_bytes')
        if not frag:
            tri(rep, 'an unfragmented frame carries the whole message', tri_and(eqv.eq_lin(st, off, const(0)), eqv.eq_lin(st, ln, blen)), 'carries bytes %s..+%s' % (off, ln))
        else:
            cp = self.roles.get('compound_id')
            if cp is not None:
                tri(rep, 'fragments of a message share its compound id', eqv.eq_lin(st, q.fld(v, 'compound_id'), self.pre[cp]), 'fragment gets compound id %s' % (q.fld(v, 'compound_id'),))
            fi = q.fld(v, 'fragment_index')
            if done is not None:
                tri(rep, 'fragments are numbered from 0', eqv.eq_lin(st, fi, done), 'fragment number %s gets index %s' % (done, fi))
            end = add(off, ln)
            cs = q.fld(v, 'compound_size')
            if isinstance(cs, Lin):
                last = eqv.eq_lin(st, end, blen)
                if last is not True:
                    tri(rep, 'the last fragment ends the message', ge(E, st, cs, addc(fi, 2)), 'fragment %s of %s ends at %s' % (fi, cs, end))
            le = st.mon.get('end')
            if le is not None:
                tri(rep, 'fragments follow each other without gap', eqv.eq_lin(st, off, le[0]), 'a fragment begins at %s, the one before ended at %s' % (off, le[0]))
            elif not st.mon.get('in'):
                tri(rep, 'fragments follow each other without gap', eqv.eq_lin(st, off, const(0)), 'the first fragment begins at %s' % off)
            st.mon['end'] = (end,)
            if isinstance(cs, Lin) and not has_phi(cs):
                st.mon['cs'] = (cs,)
            if self.M is not None:
                m = self.M
                tri(rep, 'fragment i begins at i times the fragment size', eqv.eq_lin(st, off, tm.mul(m, fi)), 'fragment %s begins at %s' % (fi, off))
                last = eqv.eq_lin(st, end, blen)
                full = eqv.eq_lin(st, ln, m)
                tri(rep, 'a fragment is full or the last', True if full is True or last is True else (False if full is False and last is False else None), 'fragment %s carries %s bytes' % (fi, ln))
        mp = self.roles.get('mtu')
        if mp is not None:
            room = sub(self.pre[mp], addc(ln, header(self.r, frag) + IP_UDP))
            tri(rep, 'a %s datagram fits the mtu' % k, True if st.prove(room) else (False if refuted(st, ('ge', room)) else None),
                'a %s%s frame with %s payload bytes, e.g. %s' % (k, ' fragment' if frag else '', ln, refuted(st, ('ge', room))))

    def slice_of(self, d):
        if not (isinstance(d, tuple) and d[0] == 'Q' and not d[2]):
            return None
        if not d[1]:
            return const(0), const(0)
        if len(d[1]) == 1 and d[1][0][0] == 'sub' and d[1][0][1] is self.bufn:
            return d[1][0][2], sub(d[1][0][3], d[1][0][2])
        return None

    def head(self, E, st, pt):
        frag = st.mon.get('frag')
        cs = st.mon.get('cs')
        st.mon.clear()
        st.mon['b'] = tuple((p, get(E, st, self.ref, p)) for p in self.ints)
        st.mon['in'] = True
        if frag is not None:
            st.mon['frag'] = frag
        if cs is not None:
            st.mon['cs'] = cs

    def arrive(self, E, st, pt, back):
        frag, cs = st.mon.get('frag'), st.mon.get('cs')
        st.mon.clear()
        if frag is not None:
            st.mon['frag'] = frag
        if cs is not None:
            st.mon['cs'] = cs


def tri_and(*rs):
    if any(r is False for r in rs):
        return False
    if all(r is True for r in rs):
        return True
    return None


def neg(x):
    return sub(const(0), x)


def learn_mtu(q):
    """the field of the send queue that new() takes from its argument: (projection, lowest, highest value)"""
    f = [f for f in find_fns(q.P) if f.p.endswith('::SendQ::new')]
    if len(f) != 1:
        raise Lost('SendQ::new')
    u = q.new()
    out = {}
    for st, v in u.call(f[0], [u.opaque(t, ('a', i), u.st) for i, t in enumerate(sig(q.P, f[0])[0])], u.st):
        for p, t in q.leaves(q.self_ty(q.send_insert)):
            x = leaf_val(u.E, st, v, p)
            if isinstance(x, Lin):
                lo, hi = st.rng(x)
                o = out.setdefault(p, [lo, hi, False])
                o[0], o[1] = min(o[0], lo), max(o[1], hi)
                o[2] = o[2] or bool(x.t)
    c = [(p, o[0], o[1]) for p, o in out.items() if o[2]]
    if len(c) != 1:
        raise Lost('mtu of the send queue')
    return c[0]


def setup(q, r, roles, rep, learn, M=None, mtu=None):
    u = q.new()
    E = u.E
    f = q.send_insert
    ref = q.self_arg(u, f)
    ri, rty = reliability_arg(q, f)
    bi = buf_arg(q, u, f)
    args = []
    for i, t in enumerate(sig(q.P, f)[0]):
        if i == 0:
            args.append(ref)
        elif i == ri:
            args.append(rel_value(q, rty, r))
        else:
            args.append(u.opaque(t, ('a', i), u.st))
    pre = {p: get(E, u.st, ref, p) for p, t in q.leaves(q.self_ty(f))}
    b = E.get(u.st, args[bi][1], args[bi][2]) if args[bi][0] in ('R', 'SL') else args[bi]
    if not (isinstance(b, tuple) and b[0] == 'Q'):
        raise Lost('message bytes')
    bn = b[1][0][1]
    u.st.assume(p_ge(addc(neg(E.len_atom(bn)), 1 << 31)))
    if mtu is not None:
        u.st.assume(p_ge(addc(pre[mtu[0]], -mtu[1])))
        u.st.assume(p_ge(addc(neg(pre[mtu[0]]), mtu[2])))
    mon = InsMon(q, u, ref, pre, bn, rep, r, roles, learn)
    mon.chunks = []
    mon.M = M
    mon.alen = E.len_atom(bn)
    E.monitors.append(mon)
    E.part = inputs_part
    E.unroll = 2
    E.late_bounds = True
    return u, ref, args, pre, mon


def inputs_part(st):
    """what is known about inputs alone (nothing that changes along a loop): paths that differ in it stay apart"""
    r = []
    for a, (lo, hi) in st.ivl.items():
        if a.key[0] in ('div', 'rem') and not has_phi(a):
            r.append((a.id, min(lo, 1), min(hi, 1)))
    return tuple(sorted(r))


PHI = {}


def has_phi(x):
    if isinstance(x, Lin):
        return any(has_phi(a) for a, _ in x.t)
    if isinstance(x, Atom):
        if x.id not in PHI or PHI[x.id][0] is not x:
            PHI[x.id] = (x, x.key[0] == 'phi' or any(has_phi(y) for y in x.key[1:]))
        return PHI[x.id][1]
    if isinstance(x, tuple):
        return any(has_phi(y) for y in x)
    return False


def same(st, a, b):
    return st.prove(sub(a, b)) and st.prove(sub(b, a))


def feas(st, r):
    """a failure counts only on a path that some input takes"""
    if r is False and not witness.feasible(st):
        return None
    return r


class Insert:
    """SendQ::insert analysed per reliability"""

    def __init__(self, rep):
        q = self.q = Q()
        self.rep = rep
        f = self.f = q.send_insert
        queue = [p for p, t in q.leaves(q.self_ty(f)) if q.is_vec_of(t, q.frame)]
        if len(queue) != 1:
            raise Lost('%d lists of frames in the send queue' % len(queue))
        self.mtu = learn_mtu(q)
        learn = {}
        chunks = []
        for r in range(5):
            u, ref, args, pre, mon = setup(q, r, {'queue': queue[0]}, rep, learn, mtu=self.mtu)
            u.call(f, args, u.st)
        roles = self.roles = {'queue': queue[0], 'mtu': self.mtu[0]}
        for name in ('reliable_frame_index', 'sequenced_frame_index', 'ordered_frame_index', 'compound_id'):
            cand = {}
            for (n, r), ps in learn.items():
                if n == name:
                    for p in ps:
                        cand[p] = cand.get(p, 0) + 1
            if cand:
                best = max(cand.values())
                top = [p for p, c in cand.items() if c == best]
                if len(top) == 1:
                    roles[name] = top[0]
            if name not in roles:
                rep.und('role', 'no counter found for %s' % name)

    def frag_size(self):
        """the payload size of a full fragment, in terms of the mtu"""
        class Probe(InsMon):
            def judge(s, E, st, v, n, done):
                fl = s.q.fld(v, 'flags')
                if isinstance(fl, Lin) and not fl.t and fl.c & 16:
                    part = s.slice_of(s.q.fld(v, 'data'))
                    if part is not None:
                        got.append(part[1])
        got = []
        q = self.q
        u, ref, args, pre, mon = setup(q, REL_ORD, self.roles, self.rep, None, mtu=self.mtu)
        mon.__class__ = Probe
        mon.learn = {}
        u.call(self.f, args, u.st)
        m = [x for x in got if [a for a, k in x.t] == [a for a, k in pre[self.mtu[0]].t]]
        if not m or any(x is not m[0] for x in m):
            return None
        return sub(m[0], pre[self.mtu[0]])

    def all(self):
        witness.STRICT[0] = True
        try:
            return self.all_()
        finally:
            witness.STRICT[0] = False

    def all_(self):
        q, rep, roles = self.q, self.rep, self.roles
        df = self.frag_size()
        if df is None or df.t:
            rep.und('fragment size', 'not the mtu minus a constant')
            df = None
        for r in range(5):
            k = NAMES[r]
            u, ref, args, pre, mon = setup(q, r, roles, rep, None, mtu=self.mtu)
            if df is not None:
                mon.M = add(pre[self.mtu[0]], df)
            rets = u.call(self.f, args, u.st)
            E = u.E
            for a in E.aborts if hasattr(E, 'aborts') else ():
                rep.und('abort', str(a))
            okn = 0
            for st, v in rets:
                if v[0] != 'E' or not is_const(v[2]):
                    rep.und('result', 'result of insert is %s' % (v,))
                    continue
                qn = get(E, st, ref, roles['queue'])
                cnt = sub(E.seq_len(qn), E.seq_len(pre[roles['queue']])) if isinstance(qn, tuple) and qn[0] == 'Q' else None
                ch = changed(E, st, ref, pre)
                if not is_ok(v):
                    rep.check('an ordered message is never refused', r != REL_ORD, 'insert of a %s message fails: %s' % (k, v))
                    tri(rep, 'a refused message leaves no frame', eqv.eq_lin(st, cnt, const(0)) if cnt is not None else None, 'frames queued by a failing insert of a %s message: %s' % (k, cnt))
                    rep.check('a refused message leaves the counters', not ch, '%s: changed %s' % (k, ch))
                    room = addc(sub(pre[roles['mtu']], mon.alen), -61)
                    d = neg(addc(room, 1))        # len - (mtu-60) ... refused only beyond
                    tri(rep, 'only a message beyond the size limit is refused', ge(E, st, mon.alen, addc(pre[roles['mtu']], -59)),
                        '%s message refused though it has no more than mtu - 60 bytes' % k)
                    rep.check('the refusal names the size', self.err_name(v) in (None, 'PacketSizeExceedMTU'), 'insert of an oversized %s message reports %s' % (k, self.err_name(v)))
                    continue
                okn += 1
                for name, rs in (('ordered_frame_index', (REL_ORD,)), ('sequenced_frame_index', (UNREL_SEQ, REL_SEQ))):
                    p = roles.get(name)
                    if p is None:
                        continue
                    want = addc(pre[p], 1 if r in rs else 0)
                    now = get(E, st, ref, p)
                    tri(rep, 'the %s counter counts its messages' % name.split('_')[0], eqv.eq_lin(st, now, want), '%s message: counter goes from %s to %s' % (k, pre[p], now))
                if cnt is None:
                    rep.und('queued', 'queue after insert')
                    continue
                rp = roles.get('reliable_frame_index')
                if rp is not None:
                    now = get(E, st, ref, rp)
                    want = cnt if r in (REL, REL_ORD, REL_SEQ) else const(0)
                    res = eqv.eq_lin(st, now, add(pre[rp], want))
                    if res is None and same(st, now, add(pre[rp], want)):
                        res = True
                    tri(rep, 'the reliable counter advances by one per frame', feas(st, res), '%s message: counter goes from %s to %s with %s frames queued' % (k, pre[rp], now, cnt))
                frag = st.mon.get('frag')
                if not frag:
                    if r == REL_ORD and eqv.eq_lin(st, cnt, const(1)) is not True:
                        rep.und('queued', 'frames of a long message are not followed')
                        continue
                    tri(rep, 'an accepted message queues its frames', eqv.eq_lin(st, cnt, const(1)), '%s message accepted, %s frames queued' % (k, cnt))
                else:
                    p = roles.get('compound_id')
                    if p is not None:
                        rep.check('the next fragmented message gets another compound id', get(E, st, ref, p) is not pre[p], 'compound id stays at %s' % pre[p])
                    cs = st.mon.get('cs')
                    if cs is None:
                        rep.und('compound size', 'not traced to the end')
                    else:
                        cs = cs[0]
                        r2 = True if same(st, cs, cnt) else feas(st, eqv.eq_lin(st, cs, cnt))
                        tri(rep, 'compound size is the number of fragments', r2, 'compound size %s, fragments queued %s' % (cs, cnt))
            rep.check('an accepting path exists', okn > 0, 'insert never accepts a %s message' % k)
            rep.floor('%s frames judged' % k, len(mon.pushes), 1)
        return self

    def err_name(self, v):
        P = self.q.P
        for vi, fs in v[3]:
            for x in fs:
                if isinstance(x, tuple) and x[0] == 'E' and is_const(x[2]) and P.types[x[1]]['p'].endswith('::RaknetError'):
                    for va in P.types[x[1]]['v']:
                        if va['d'] == x[2].c:
                            return va['n']
        return None


class Part:
    """the part of a report that belongs to one property"""

    def __init__(self, rep, words):
        self.rep, self.words = rep, words

    def mine(self, key):
        return any(w in key for w in self.words)

    def ok(self, key, detail=''):
        if self.mine(key):
            self.rep.ok(key, detail)

    def bad(self, key, detail=''):
        if self.mine(key):
            self.rep.bad(key, detail)

    def check(self, key, cond, detail=''):
        if self.mine(key):
            self.rep.check(key, cond, detail)
        return bool(cond)

    def und(self, key, detail=''):
        self.rep.und(key, detail)

    def floor(self, *a):
        self.rep.floor(*a)


NUMBERS = ('numbered consecutively', 'counter', 'is marked as such', 'compound id', 'accepted message queues', 'leaves no frame')
SIZES = ('fits the mtu', 'refused', 'refusal', 'accepting path', 'only ordered messages')
FRAGS = ('fragment', 'compound', 'whole message')


def numbering(rep):
    rep.rule('SendQ::insert, analysed for each reliability, an arbitrary queue and an arbitrary message: every frame it queues and every counter it leaves behind.')
    Insert(Part(rep, NUMBERS)).all()


def sizes(rep):
    rep.rule('SendQ::insert, analysed for each reliability, an arbitrary queue (its mtu within the bounds SendQ::new establishes) and an arbitrary message.')
    i = Insert(Part(rep, SIZES))
    i.all()
    rep.check('the mtu in force is sane', i.mtu[1] >= 60 + 1 and i.mtu[2] <= 1500, 'SendQ::new accepts mtu %s..%s' % (i.mtu[1], i.mtu[2]))


def fragments_sent(rep):
    rep.rule('SendQ::insert: the fragments of an ordered message.')
    Insert(Part(rep, FRAGS)).all()


def fragments(rep):
    from . import arq
    arq.fragments(rep)
    fragments_sent(rep)
