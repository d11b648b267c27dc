"""The background tasks of a connection: what they do with each datagram received, released, or timed out.

Both constructors are interpreted with arbitrary arguments; every task they spawn is then interpreted with the values it was
actually given, from an arbitrary state of whatever it shares.  Queues, encoders and decoders are black boxes."""
import os

from sa.unit import sig, find_fns
from sa.terms import *
from sa import terms as tm
from sa import eqv, witness
from .arq import Lost, tri
from .codec import fields
from .flow import where, local_name
from .conn import World, Conn, Trace, whole, first, is_addr, can, can_all, models_deref

CONTROL = {'ConnectedPing': 0x00, 'ConnectedPong': 0x03, 'ConnectionRequest': 0x09, 'ConnectionRequestAccepted': 0x10,
           'NewIncomingConnection': 0x13, 'Disconnect': 0x15}
USER = 0xfe
# a connected request, the packet that answers it, and the field it echoes
ANSWER = {'ConnectionRequest': ('ConnectionRequestAccepted', (('request_timestamp', 'time'),)),
          'ConnectionRequestAccepted': ('NewIncomingConnection', (('request_timestamp', 'request_timestamp'),)),
          'ConnectedPing': ('ConnectedPong', (('client_timestamp', 'client_timestamp'),))}
WAITS = ('recv', 'sleep', 'recv_from', 'unknown')
PERIOD = 50
SILENCE = 60000

# what has to be remembered to decide each property: paths that differ in nothing else are joined
BASE = 'back yielded ~closed closed cycle dg ~not ~notdg '
KEEP = {k: frozenset((BASE + v).replace(',', ' ').split(' ')) for k, v in {
    'P04': 'item err txfail ended noticed own watch',
    'P10': 'due flushed out ~now drawn',
    'P11': 'ack nack nacked drawn',
    'P12': 'recs',
    'P14': 'asked noticed own wasclosed ended watch sawdis item told farewell txfail drawn',
    'P15': 'beat hbload ~now noticed own',
    'P25': 'item ~now',
    'P26': 'item set frame ins',
}.items()}
LISTS = {'P10': ['due'], 'P14': ['ready'], 'P25': ['ready'], 'P26': ['ready', 'set'], 'P04': ['ready']}
for k, v in LISTS.items():
    KEEP[k] |= frozenset(a + ' ' + x for a in ('list', 'loop') for x in v)


class Sink:
    def __getattr__(self, n):
        return self.f

    def f(self, *a):
        return None


class For:
    """the rules of one property only"""
    def __init__(self, rep, prop):
        self.rep, self.prop, self.sink = rep, prop, Sink()

    def __getitem__(self, p):
        return self.rep if p == self.prop else self.sink


def root_call(E, v):
    """(index of the black-box call a value comes from, its result's name, the steps from there)"""
    n = whole(E, v) if not isinstance(v, Nm) else v
    steps = []
    while isinstance(n, Nm) and len(n.key) == 2 and isinstance(n.key[0], Nm) and isinstance(n.key[1], tuple):
        if n.key[1][0] == 'call':
            return n.key[1][1], n, tuple(reversed(steps))
        steps.append(n.key[1])
        n = n.key[0]
    return None


def variant_of(E, st, v):
    """0 for Ok/None, 1 for Err/Some of a value whose variant the path knows, else None"""
    if not isinstance(v, tuple) or v[0] not in ('O', 'E'):
        return None
    d = E.discr(st, v)
    lo, hi = st.rng(d)
    return lo if lo == hi else None


def chan_name(x):
    """the name of the channel an end belongs to"""
    if isinstance(x, tuple) and x[0] == 'O':
        t = str(x[1])
        for e in ('.tx', '.rx'):
            if t.endswith(e):
                return t[:-3]
        return t
    return None


class TaskMon(Trace):
    def __init__(self, w, R, conn, prop):
        super().__init__(w, None, None)
        self.R, self.c = R, conn
        self.E = conn.E
        P = w.P
        self.task = None
        self.hb = set(loc for loc, t in conn.arcs())
        self.sems = conn.sems
        self.fid = {'set': set(f.id for f in w.frameset)}
        us = set(chan_name(v) for v in conn.locked if isinstance(v, tuple) and v[0] == 'O' and str(v[1]).endswith('.rx'))
        self.user = us.pop() if len(us) == 1 else None
        self.ticker = False
        self.incoming = None
        self.notified = []
        self.seen_tasks = {}
        self.keep = KEEP.get(prop)

    # -------- plumbing
    def begin(self, val):
        self.n_t = {}
        self.exits = []
        self.cycles = set()
        self.looks = set()
        self.later = []
        self.ticking = False

    def event(self, E, st, ev):
        super().event(E, st, ev)
        self.trim(st)

    def trim(self, st):
        if self.keep is not None:
            for k in [k for k in st.mon if (k[0] + ' ' + k[1] if isinstance(k, tuple) else k) not in self.keep]:
                del st.mon[k]

    IDS = tuple(sorted(set(CONTROL.values()) | {USER}))

    def part(self, st):
        """what is known of the first byte of the message or datagram at hand keeps paths apart"""
        r = []
        ins = st.mon.get('ins')
        if ins is not None and variant_of(self.E, st, ins) == 1:
            del st.mon['ins']
        err = st.mon.get('err')
        if err is not None and err[1] is not None:
            v = variant_of(self.E, st, err[1])
            if v == 0:
                del st.mon['err']
            elif v == 1:
                st.mon['err'] = (err[0], None, err[2])
        it = st.mon.get('item')
        if it is not None and it[1] is None:
            r.append(self.firsts(st, it[0], self.IDS, '~not'))
        if 'asked' in self.keep:
            dg = st.mon.get('dg')
            if dg is not None and not st.mon.get('closed'):
                r.append(self.firsts(st, dg, (0x15,), '~notdg'))
        return tuple(r)

    def firsts(self, st, q, ids, memo):
        """the ids the first byte may be; those it cannot be are remembered past joins"""
        ln = self.E.seq_len(q)
        lo, hi = st.rng(ln)
        no = st.mon.get(memo, frozenset())
        if hi == 0:
            no = frozenset(ids)
        elif len(no) < len(ids):
            b = first(self.E, st, q)
            lo, hi = st.rng(b)
            no |= frozenset(c for c in ids if c not in no and (not lo <= c <= hi or lo != hi and st.implies(p_not(p_eq(addc(b, -c))))))
        st.mon[memo] = no
        return tuple(c for c in ids if c not in no)

    def begins(self, E, st, q, c, memo):
        """can the bytes begin with c"""
        if c in st.mon.get(memo, ()):
            return False
        return can_all(st, p_ge(addc(E.seq_len(q), -1)), p_eq(addc(first(E, st, q), -c)))

    def seen(self, k):
        self.n[k] = self.n.get(k, 0) + 1
        self.n_t[k] = self.n_t.get(k, 0) + 1

    def mine(self, p):
        return p is not None and p[0] in self.sems and p[1] == ()

    def at(self, E, ev):
        return 'in %s at %s' % (self.task, where(E, ev)[1])

    def pend_addr(self, rep, key, E, st, a, at):
        r = self.c.is_peer(st, a)
        tri(rep, key, r, 'sent to %s %s' % (str(a)[:100], at))

    # -------- waiting and closing (P14)
    def on_await(self, E, st, ev):
        if ev.fut == 'acquire' and self.mine(ev.prim):
            c = self.choice(ev)
            if c is not None:
                self.looks.add(c)
            st.mon['asked'] = True
            return
        if ev.fut == 'notified':
            self.seen('watch')
            st.mon['watch'] = ev.prim[0] if ev.prim else None
            return
        if ev.fut not in WAITS:
            return
        self.wait(E, st, self.at(E, ev), ev)

    def wait(self, E, st, at, ev):
        R = self.R
        self.cycle_end(E, st, at)
        if ev.fut == 'sleep':
            self.seen('sleep')
            self.ticking = True
            self.cycles |= set(E.loops)
            d = ev.dur
            ms = d[2] if isinstance(d, tuple) and d[:2] == ('X', 'dur') else None
            for p in ('P10', 'P15'):
                key = 'the periodic task runs every %d ms' % PERIOD
                if isinstance(ms, Lin):
                    tri(R[p], key, st.rng(ms)[1] <= PERIOD, 'it sleeps %s ms %s' % (ms, at))
                else:
                    R[p].und(key, str(d))
        st.mon['cycle'] = True
        c = self.choice(ev)
        if c is not None:
            st.mon['asked'] = c

    def choice(self, ev):
        """the select! a future is awaited in"""
        c = ev.c.ctx
        while c is not None:
            if not (c.fn.d and c.fn.d.get('cor')) and '{closure' in c.fn.p and c.parent is not None:
                return ('sel', c.chain, c.fn.id)
            c = c.parent
        return None

    def cycle_end(self, E, st, at):
        """a cycle of a task is over: it waits again"""
        if st.mon.get('cycle'):
            R = self.R
            a = st.mon.get('asked')
            key = 'every cycle of a task looks at whether the connection is closed'
            if isinstance(a, tuple):
                self.later.append((a, key, 'a cycle of %s ends without having looked, %s' % (self.task, at)))
            else:
                R['P14'].check(key, a, 'a cycle of %s ends without having looked, %s' % (self.task, at))
            R['P14'].check('a task that saw the connection closed starts no further cycle', not st.mon.get('closed'),
                           '%s goes on after seeing the connection closed, %s' % (self.task, at))
        self.done(E, st, at)
        for k in ('asked', 'cycle', 'back'):
            st.mon.pop(k, None)

    def done(self, E, st, at):
        """what the task waited for has been dealt with: it goes back to where it waits, or waits again"""
        if self.ticking and st.mon.get('cycle') and not st.mon.get('back'):
            self.tick_end(E, st, at)
            st.mon['back'] = True
        self.settle(E, st, at)
        for k in ('~now', 'hbload', 'flushed', 'nacked', 'drawn'):
            st.mon.pop(k, None)

    def on_is_closed(self, E, st, ev):
        if self.mine(ev.prim):
            st.mon['asked'] = True
            if ev.res and not st.mon.get('own'):
                st.mon['noticed'] = True

    def on_close(self, E, st, ev):
        if not self.mine(ev.prim):
            self.R['P14'].und('tasks close their own connection', str(ev.prim)[:100])
            return
        self.seen('close')
        self.why_close(E, st, self.at(E, ev))
        st.mon['own'] = True
        L = st.mon.get('hbload')
        if L is not None and not st.mon.get('noticed'):
            ns = self.clock(st)
            ok = any(st.prove(addc(sub(x, L), -(SILENCE + 1))) for x in ns)
            if ok:
                self.R['P15'].ok('a connection is closed for silence only after %d ms without a datagram' % SILENCE)
                self.seen('timeout')
            else:
                r = [can_all(st, p_ge(sub(addc(L, SILENCE), x))) for x in ns]
                (self.R['P15'].bad if True in r else self.R['P15'].und)(
                    'a connection is closed for silence only after %d ms without a datagram' % SILENCE,
                    'closed although the last datagram may be more recent, %s' % self.at(E, ev))

    def why_close(self, E, st, at):
        """a connection is not closed by what it receives, but by a Disconnect (P04)"""
        m = st.mon
        self.malformed(E, st, 'closes the connection', at, True)
        if m.get('noticed') or m.get('ended') or m.get('txfail') or m.get('watch') is not None or self.ticking or m.get('dg') is None:
            return
        key = 'of what is received only a Disconnect closes the connection'
        it = m.get('item')
        b = first(E, st, m['dg'])
        c = first(E, st, it[0]) if it is not None else None
        if eqv.eq_lin(st, b, const(0x15)) is True or c is not None and eqv.eq_lin(st, c, const(0x15)) is True:
            self.R['P04'].ok(key)
            self.seen('disconnected')
            return
        ps = [p_not(p_eq(addc(b, -0x15)))] + ([p_not(p_eq(addc(c, -0x15)))] if c is not None else [])
        r = can_all(st, *ps)
        (self.R['P04'].bad if r else self.R['P04'].und)(key, 'closed after a datagram with first byte in %s%s, %s' % (
            st.rng(b), ' and a message with first byte in %s' % (st.rng(c),) if c is not None else '', at))

    def malformed(self, E, st, what, at, any_=False):
        """something that did not decode has no effect (P04)"""
        e = st.mon.get('err')
        it = st.mon.get('item')
        if it is not None and it[1] is not None and it[1][0] == 'dec':
            e = ('parse', it[1][2], it[1][1])
        if e is not None and (any_ or e[0] == 'parse') and (e[1] is None or variant_of(E, st, e[1]) == 1):
            self.R['P04'].bad('what does not decode has no effect', 'after a failed %s %s %s' % (e[2], what, at))

    def on_now(self, E, st, ev):
        st.mon['~now'] = st.mon.get('~now', frozenset()) | {ev.name}

    def is_now(self, st, v):
        """v is a clock reading made since the last wait"""
        if not (isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0].key[0] == 'o'):
            return None
        n = v.t[0][0].key[1]
        while isinstance(n, Nm):
            if str(n).endswith('/now'):
                return any(n is x for x in st.mon.get('~now', ()))
            if not (len(n.key) == 2 and isinstance(n.key[0], Nm)):
                break
            n = n.key[0]
        return None

    # -------- heartbeat (P15)
    def on_astore(self, E, st, ev):
        if ev.prim and ev.prim[0] in self.hb and ev.ty in ('i64', 'u64'):
            r = self.is_now(st, ev.val)
            if is_const(ev.val):
                r = False
            tri(self.R['P15'], 'the time of the last datagram is the current time', r, 'stores %s %s' % (ev.val, self.at(E, ev)))
            self.R['P15'].check('the time of the last datagram is stored when one was received', st.mon.get('dg') is not None,
                                'stored without a datagram %s' % self.at(E, ev))
            st.mon['beat'] = True

    def on_aload(self, E, st, ev):
        if ev.prim and ev.prim[0] in self.hb and ev.ty in ('i64', 'u64'):
            self.seen('hbload')
            st.mon['hbload'] = ev.val

    def clock(self, st):
        """clock readings of this cycle, as terms the path knows something about"""
        out = []
        for t in st.lins:
            for a, k in t:
                x = lin(a)
                if self.is_now(st, x) and x not in out:
                    out.append(x)
        return out

    def tick_end(self, E, st, at):
        R = self.R
        L = st.mon.get('hbload')
        if not st.mon.get('closed'):
            self.list_over(E, st, 'due', at)
            R['P15'].check('every cycle of the periodic task looks at the time of the last datagram', L is not None, 'a cycle ends without looking, %s' % at)
            if L is not None:
                ns = self.clock(st)
                if any(st.prove(sub(addc(L, SILENCE), x)) for x in ns):
                    R['P15'].ok('a silent connection is closed once %d ms passed' % SILENCE)
                else:
                    r = [can_all(st, p_ge(addc(sub(x, L), -(SILENCE + 1)))) for x in ns]
                    (R['P15'].bad if True in r or not ns else R['P15'].und)('a silent connection is closed once %d ms passed' % SILENCE,
                                                                        'the connection goes on although the last datagram may be older, %s' % at)
            R['P10'].check('every cycle of the periodic task asks the send queue for due datagrams', st.mon.get('flushed'), 'a cycle ends without asking, %s' % at)
            R['P11'].check('every cycle of the periodic task asks for missing sequence numbers', st.mon.get('nacked'), 'a cycle ends without asking, %s' % at)

    # -------- a datagram arrives
    def on_recv(self, E, st, ev):
        v = ev.val
        if ev.chan.endswith('Vec<u8>'):
            if v is None:
                st.mon['ended'] = True
                return
            self.seen('datagram')
            self.cycles |= set(E.loops)
            st.mon.pop('drawn', None)
            for k in ('beat', 'ack', 'sawdis', '~now', 'err'):
                st.mon.pop(k, None)
            st.mon['dg'] = v
            st.mon.pop('~notdg', None)
        elif isinstance(v, tuple) and v[0] == 'T' or v is None:
            if v is None:
                st.mon['ended'] = True
                return
            q = [x for x in v[1] if isinstance(x, tuple) and x[0] == 'Q']
            a = [x for x in v[1] if is_addr(self.w.P, x)]
            if q and a:
                self.seen('outgoing')
                self.cycles |= set(E.loops)
                st.mon.pop('drawn', None)
                st.mon['out'] = (q[0], a[0])

    def settle(self, E, st, at):
        """the datagram received last has been dealt with"""
        R = self.R
        o = st.mon.pop('out', None)
        if o is not None and not st.mon.get('drawn'):
            R['P10'].bad('the sending task sends every datagram it is given', 'a datagram is passed over, %s' % at)
        dg = st.mon.get('dg')
        if dg is None:
            return
        closed = st.mon.get('closed')
        e = st.mon.get('err')
        if e is not None and (e[1] is None or variant_of(E, st, e[1]) == 1):
            self.seen('malformed')
            R['P04'].ok('what does not decode has no effect')
        R['P15'].check('every datagram received renews the time of the last one', st.mon.get('beat') or closed, 'a path handles a datagram without noting the time, %s' % at)
        if not closed:
            b = first(E, st, dg)
            r = self.begins(E, st, dg, 0x15, '~notdg')
            tri(R['P14'], 'a Disconnect datagram closes the connection', None if r is None else not r,
                'a datagram beginning with 0x15 may be received and the connection goes on, %s' % at)
            R['P14'].check('a Disconnect message closes the connection', not st.mon.get('sawdis'), 'the connection goes on after a Disconnect message, %s' % at)
        self.settle_acks(E, st, at)
        self.settle_set(E, st, at)
        for k in list(st.mon):
            if k in ('dg', 'beat', 'ack', 'sawdis', 'item', 'recs', 'err') or isinstance(k, tuple):
                st.mon.pop(k)

    # -------- acknowledgements received (P12)
    def on_sum(self, E, st, ev):
        w, R = self.w, self.R
        f = ev.fn
        at = self.at(E, ev)
        if f.id in w.dec:
            kind = w.dec[f.id]
            self.seen('dec ' + kind)
            self.decoded(E, st, ev, kind, at)
        elif f.id in w.enc:
            self.encoded(E, st, ev, w.enc[f.id], at)
        elif f.id in self.fid['set']:
            self.seen('frame set')
            dg = st.mon.get('dg')
            st.mon['err'] = ('parse', ev.ret, 'frame set')
            tri(R['P04'], 'the frame parser is given the whole received datagram', eqv.eq(E, st, ev.vals[0], dg) if dg is not None else None, 'given %s %s' % (str(ev.vals[0])[:200], at))
            st.mon['set'] = ev.ret
        elif f.id == w.serialize.id:
            p = st.mon.get('due')
            if p is not None and p[0] == 'raw' and eqv.eq(E, st, ev.vals[0], p[1]) is True:
                st.mon['due'] = ('ser', ev.ret)
        elif f.id == w.send_flush.id:
            self.seen('send flush')
            st.mon['flushed'] = True
            st.mon[('list', 'due')] = (ev.ret, 'new')
            t = [v for v, x in zip(ev.vals, sig(w.P, f)[0]) if w.P.types[x]['k'] == 'int']
            for x in t:
                tri(R['P10'], 'datagrams are due by the current time', self.is_now(st, x), 'the queue is told the time is %s %s' % (x, at))
        elif f.id == w.recv_insert.id:
            self.seen('recv insert')
            self.malformed(E, st, 'something reaches the receive queue', at)
            st.mon['err'] = ('frame', ev.ret, 'insertion')
            p = st.mon.get('frame')
            if p is not None:
                r = eqv.eq(E, st, ev.vals[1], p)
                tri(R['P26'], 'frames reach the receive queue unchanged', r, 'inserts %s %s' % (str(ev.vals[1])[:150], at))
                st.mon['frame'] = None
            else:
                R['P26'].check('a frame reaches the receive queue once', False if st.mon.get(('list', 'set')) else True, 'a second insertion %s' % at)
            st.mon['ins'] = ev.ret
            st.mon['ack'] = 'due'
        elif f.id == w.recv_flush.id:
            self.seen('recv flush')
            st.mon.pop('err', None)
            self.list_over(E, st, 'ready', at)
            st.mon[('list', 'ready')] = (ev.ret, 'new')
            st.mon['ins'] = None
        elif f.id == w.send_insert.id:
            self.malformed(E, st, 'something reaches the send queue', at)
            self.queued(E, st, ev, at)
        elif f.id in w.qmeth:
            self.qcall(E, st, ev, at)

    def decoded(self, E, st, ev, kind, at):
        R = self.R
        if kind in ('Ack', 'Nack'):
            st.mon['err'] = ('parse', ev.ret, kind)
            dg = st.mon.get('dg')
            tri(R['P04'], 'the %s decoder is given the whole received datagram' % kind, eqv.eq(E, st, ev.vals[0], dg) if dg is not None else None, 'given %s %s' % (str(ev.vals[0])[:200], at))
            b = first(E, st, dg) if dg is not None else None
            idb = 0xc0 if kind == 'Ack' else 0xa0
            if b is not None:
                r = eqv.eq_lin(st, b, const(idb))
                tri(R['P12'], 'an %s is decoded from a datagram with its id' % kind, r, 'the first byte is in %s %s' % (st.rng(b), at))
            st.mon['recs'] = (kind, ev.ret, 'init', None)
            return
        it = st.mon.get('item')
        if it is not None:
            tri(R['P04'], 'the %s decoder is given the whole received message' % kind, eqv.eq(E, st, ev.vals[0], it[0]), 'given %s %s' % (str(ev.vals[0])[:200], at))
            st.mon['item'] = (it[0], ('dec', kind, ev.ret))

    # records of a received acknowledgement
    def qcall(self, E, st, ev, at):
        w, R = self.w, self.R
        f = ev.fn
        if result_is_ranges(w, f):
            self.seen('collect ack' if f.id in w.acklists else 'collect nack')
            if f.id in w.acklists:
                st.mon['ack'] = ('list', ev.ret)
            else:
                st.mon['nacked'] = True
                st.mon['nack'] = ('list', ev.ret)
            return
        a = sig(w.P, f)[0]
        if w.P.types[a[0]]['t'] != w.sendq_ty:
            return
        nums = [v for v, t in zip(ev.vals[1:], a[1:]) if w.P.ts(t) == 'u32']
        if len(nums) != 1:
            return
        seq = nums[0]
        rc = st.mon.get('recs')
        kind = 'Ack' if f.id == w.send_ack.id else 'Nack'
        self.seen('apply ' + kind)
        self.malformed(E, st, 'an acknowledgement is applied', at)
        if rc is None:
            R['P12'].bad('the send queue is told of acknowledgements only by a received ACK or NACK', '%s called outside the handling of one %s' % (f.p, at))
            return
        R['P12'].check('ACKs acknowledge and NACKs ask again', rc[0] == kind, 'a received %s calls %s %s' % (rc[0], f.p, at))
        name = rc[3] if rc[2] == 'some' else self.record(E, rc, seq)
        if name is None:
            R['P12'].und('acknowledged numbers lie in a received range', '%s %s' % (seq, at))
            st.mon['recs'] = (rc[0], rc[1], 'vague', None)
            return
        lo, hi = self.bounds(E, st, name)
        if st.prove(sub(seq, lo)) and st.prove(sub(hi, seq)) or seq is lo or seq is hi:
            R['P12'].ok('acknowledged numbers lie in a received range')
        else:
            r = can_all(st, p_ge(addc(sub(lo, seq), -1))) or can_all(st, p_ge(addc(sub(seq, hi), -1)))
            (R['P12'].bad if r else R['P12'].und)('acknowledged numbers lie in a received range', '%s is not within %s..=%s %s' % (seq, lo, hi, at))
        n = self.progress(rc[2], 'some')
        if rc[2] in ('init', 'open'):
            if seq is lo:
                n = 'one' if eqv.eq_lin(st, lo, hi) is True else 'some'
            else:
                r = can_all(st, p_ge(addc(sub(seq, lo), -1)))
                (R['P12'].bad if r else R['P12'].und)('every number of a received range is taken', 'the first number taken from the range is %s, not its lower end %s' % (seq, at))
                n = 'vague'
        st.mon['recs'] = (rc[0], rc[1], n, name if n == 'some' else None)

    def progress(self, a, b):
        return 'vague' if a == 'vague' else b

    def record(self, E, rc, seq):
        """the name of the received range a number is the lower end (or another part) of"""
        n = lin_name(seq)
        r = root_call(E, n) if n is not None else None
        if r is None or len(n.key) != 2 or n.key[1][0] != 'f':
            return None
        return n.key[0] if whole(E, rc[1]) is r[1] else None

    def bounds(self, E, st, name):
        v = E.mk_opaque(name, self.rec_ty(), st)
        return v[1]

    def rec_ty(self):
        return [i for i, t in enumerate(self.w.P.types) if self.w.P.ts(i) == '(u32, u32)'][0]

    def settle_acks(self, E, st, at):
        rc = st.mon.pop('recs', None)
        if rc is None:
            return
        if rc[2] not in ('over', 'vague') and not st.mon.get('closed') and variant_of(E, st, rc[1]) != 1:
            self.R['P12'].bad('every range of a received ACK or NACK is applied', 'the handling of a %s ends before its last range, %s' % (rc[0], at))

    def on_exhaust(self, E, st, ev):
        at = self.at(E, ev)
        rc = st.mon.get('recs')
        if rc is not None and rc[2] != 'over':
            self.range_over(E, st, ev, rc, at)
        if ev.over is None:
            return
        n = whole(E, ev.over)
        for k, name in self.lists(E, st):
            if n is name:
                self.item_over(E, st, k, at)
                st.mon[('list', k)] = (st.mon[('list', k)][0], 'done')

    def range_over(self, E, st, ev, rc, at):
        R = self.R
        root = whole(E, rc[1])
        n = ev.n
        key = 'every number of a received range is taken'
        if rc[2] == 'some' and ev.over is None and isinstance(n, Lin):
            # the counter of one range ran out
            lo, hi = self.bounds(E, st, rc[3])
            if sub(addc(hi, 1), n) is const(0) or eqv.eq_lin(st, n, addc(hi, 1)) is True:
                R['P12'].ok(key)
                st.mon['recs'] = (rc[0], rc[1], 'one', None)
            else:
                r = can_all(st, p_ge(sub(hi, n)))
                (R['P12'].bad if r else R['P12'].und)(key, 'the last number taken is %s, the range ends with %s %s' % (addc(n, -1), hi, at))
                st.mon['recs'] = (rc[0], rc[1], 'vague', None)
            return
        if rc[2] in ('init', 'open') and ev.over is None and isinstance(n, Lin):
            name = self.record(E, rc, addc(n, -1))
            if name is not None:
                lo, hi = self.bounds(E, st, name)
                if sub(addc(hi, 1), n) is const(0):
                    r = can_all(st, p_ge(sub(hi, lo)))
                    tri(R['P12'], key, None if r is None else not r, 'no number of a range %s..=%s is taken %s' % (lo, hi, at))
                    st.mon['recs'] = (rc[0], rc[1], 'one', None)
                    return
        o = lin_name(n) if ev.over is None else whole(E, ev.over)
        r = root_call(E, o) if o is not None else None
        if r is not None and r[1] is root and len(r[2]) <= 2:
            self.records_over(E, st, rc, at)

    def records_over(self, E, st, rc, at):
        self.R['P12'].ok('every range of a received ACK or NACK is applied')
        st.mon['recs'] = (rc[0], rc[1], self.progress(rc[2], 'over'), None)

    def arrive(self, E, st, pt, back):
        if not back:
            return
        if st.mon.pop('yielded', None):
            return
        at = 'in %s' % self.task
        if pt in self.cycles:
            self.done(E, st, at)
        for k in ('set', 'ready', 'due'):
            if pt == st.mon.get(('loop', k)):
                self.item_over(E, st, k, at)
        rc = st.mon.get('recs')
        if rc is not None:
            if rc[2] == 'one':
                st.mon['recs'] = (rc[0], rc[1], 'open', None)
            elif rc[2] in ('open', 'init') and variant_of(E, st, rc[1]) == 0:
                self.R['P12'].bad('every range of a received ACK or NACK is applied', 'a range is passed over in the handling of a %s' % rc[0])
                st.mon['recs'] = (rc[0], rc[1], 'vague', None)

    def on_yield(self, E, st, ev):
        st.mon['yielded'] = True

    # -------- lists: the frames of a set, the messages ready, the datagrams due
    def lists(self, E, st):
        r = []
        for k in ('ready', 'due'):
            x = st.mon.get(('list', k))
            if x is not None:
                r.append((k, whole(E, x[0])))
        s = st.mon.get('set')
        if s is not None:
            x = st.mon.get(('list', 'set'))
            if x is not None:
                r.append(('set', whole(E, x[0])))
        return r

    def on_item(self, E, st, ev):
        at = self.at(E, ev)
        n = whole(E, ev.over)
        if n is None:
            return
        r = root_call(E, n)
        if r is None:
            return
        s = st.mon.get('set')
        if s is not None and r[1] is whole(E, s) and ('list', 'set') not in st.mon:
            st.mon[('list', 'set')] = (ev.over, 'new')
        for k in ('set', 'ready', 'due'):
            x = st.mon.get(('list', k))
            if x is None or whole(E, x[0]) is not n:
                continue
            if x[1] == 'new':
                tri(self.R[{'due': 'P10'}.get(k, 'P26')], '%s are taken from the first on' % NAMES[k], eqv.eq_lin(st, ev.idx, const(0)), 'the first one taken has index %s %s' % (ev.idx, at))
            self.item_over(E, st, k, at)
            st.mon[('list', k)] = (x[0], 'run')
            st.mon[('loop', k)] = E.loops[-1] if E.loops else None
            st.mon.pop('drawn', None)
            v = E.seq_get(st, ev.over, ev.idx, self.w.frame)
            st.mon.pop('err', None)
            if k == 'set':
                st.mon['frame'] = v
            elif k == 'due':
                st.mon['due'] = ('raw', v)
            else:
                v = self.w.open(E, st, v)
                self.seen('message')
                st.mon['item'] = (self.w.fld(v, 'data'), None)
                st.mon.pop('~not', None)

    def item_over(self, E, st, k, at):
        R = self.R
        if k == 'set':
            f = st.mon.pop('frame', None)
            R['P26'].check('every frame of a datagram reaches the receive queue', f is None, 'a frame is passed over %s' % at)
        elif k == 'due':
            d = st.mon.pop('due', None)
            R['P10'].check('the periodic task sends every datagram that is due', d is None or d[0] == 'ser' and st.mon.get('drawn'), 'a due datagram is passed over %s' % at)
        elif k == 'ready':
            it = st.mon.pop('item', None)
            if it is not None:
                self.message_over(E, st, it, at)

    def list_over(self, E, st, k, at):
        """the list must have been gone through"""
        x = st.mon.pop(('list', k), None)
        st.mon.pop(('loop', k), None)
        if x is None:
            return
        self.item_over(E, st, k, at)
        if x[1] == 'done' or st.mon.get('closed') and k != 'due':
            return
        if st.rng(E.seq_len(x[0]))[1] == 0:
            return
        p = {'due': 'P10'}.get(k, 'P26')
        (self.R[p].bad if x[1] == 'run' or k != 'set' else self.R[p].und)('all %s are taken' % NAMES[k], 'they are left before the last one, %s' % at)

    def settle_set(self, E, st, at):
        s = st.mon.pop('set', None)
        self.list_over(E, st, 'set', at)
        self.list_over(E, st, 'ready', at)
        ins = st.mon.pop('ins', None)
        if ins is not None and not st.mon.get('closed') and variant_of(E, st, ins) != 1:
            self.R['P26'].bad('messages made ready by a frame are collected at once', 'the next datagram is awaited without asking the receive queue, %s' % at)
        a = st.mon.pop('ack', None)
        if a is not None and not st.mon.get('closed'):
            key = 'every frame set received is acknowledged'
            if a == 'due':
                self.R['P11'].bad(key, 'the next datagram is awaited without collecting the sequence numbers, %s' % at)
            elif a == 'done':
                self.R['P11'].ok(key)
            elif a[0] == 'list':
                self.R['P11'].check(key, st.rng(E.seq_len(a[1]))[1] == 0, 'the numbers collected are not sent, %s' % at)
            else:
                self.R['P11'].check(key, st.mon.get('drawn'), 'an ACK is built and not sent, %s' % at)

    # -------- one message (P25, P26)
    def message_over(self, E, st, it, at):
        R = self.R
        q, how = it
        ln = E.seq_len(q)
        b = first(E, st, q)
        if how == 'given':
            return
        r = self.begins(E, st, q, USER, '~not')
        tri(R['P26'], 'every message for the application is handed to it', None if r is None else not r, 'a message beginning with 0xfe may be dropped %s' % at)
        if self.begins(E, st, q, 0x15, '~not') is not False:
            if eqv.eq_lin(st, b, const(0x15)) is True:
                st.mon['sawdis'] = True
            elif not st.mon.get('closed'):
                r = self.begins(E, st, q, 0x15, '~not')
                (R['P14'].bad if r else R['P14'].und)('a Disconnect message closes the connection', 'a message beginning with 0x15 may be passed over %s' % at)
        for k, (ans, _) in ANSWER.items():
            key = 'a %s is answered with a %s' % (k, ans)
            if how is not None and how[1] == k:
                if how[0] == 'dec':
                    v = variant_of(E, st, how[2])
                    if v == 1:
                        self.seen('malformed message')
                        R['P04'].ok('what does not decode has no effect')
                        continue
                    R['P25'].bad(key, 'a decoded one is not answered %s' % at)
                elif how[0] == 'enc':
                    R['P25'].check(key, variant_of(E, st, how[2]) == 1, 'the answer is built and not queued %s' % at)
                else:
                    R['P25'].ok(key)
                    self.seen('answered ' + k)
            else:
                r = self.begins(E, st, q, CONTROL[k], '~not')
                tri(R['P25'], key, None if r is None else not r, 'one may be passed over %s' % at)

    def encoded(self, E, st, ev, kind, at):
        w, R = self.w, self.R
        pv = w.open(E, st, ev.vals[0])
        fs = {k: pv[2][i] for k, (i, _) in fields(w.P, pv[1]).items()}
        if kind in ('Ack', 'Nack'):
            p = st.mon.get(kind.lower())
            q = [v for v in fs.values() if isinstance(v, tuple) and v[0] == 'Q']
            c = [v for v in fs.values() if isinstance(v, Lin)]
            if isinstance(p, tuple) and p[0] == 'list' and q:
                tri(R['P11'], 'the %s lists exactly the numbers collected' % kind, eqv.eq(E, st, q[0], p[1]), 'lists %s %s' % (str(q[0])[:150], at))
                ln = E.seq_len(p[1])
                if c:
                    s2 = st.copy()
                    s2.assume(p_ge(sub(const(65535), ln)))
                    r = eqv.eq_lin(s2, c[0], ln)
                    if r is not True:
                        r = True if c[0].c == 0 and len(c[0].t) == 1 and c[0].t[0][0].key[0] == 'trunc' and c[0].t[0][0].key[1] is ln else r
                    tri(R['P11'], 'the %s counts the ranges collected' % kind, r, 'counts %s of %s %s' % (c[0], ln, at))
                st.mon[kind.lower()] = ('enc', ev.ret)
            elif kind == 'Ack' and st.mon.get('dg') is not None or kind == 'Nack':
                R['P11'].und('the %s lists exactly the numbers collected' % kind, 'built from %s %s' % (str(q)[:100], at))
            return
        it = st.mon.get('item')
        if it is not None and it[1] is not None and it[1][0] == 'dec':
            k = it[1][1]
            if k in ANSWER and ANSWER[k][0] == kind:
                req = w.payload_of(E, st, it[1][2])
                for mine, theirs in ANSWER[k][1]:
                    x = req.get(theirs)
                    tri(R['P25'], '%s.%s echoes %s.%s' % (kind, mine, k, theirs), echo(E, st, fs[mine], x) if x is not None and mine in fs else None,
                        'is %s %s' % (str(fs.get(mine))[:120], at))
                for n, v in fs.items():
                    if n == 'client_address':
                        tri(R['P25'], "%s carries the peer's address" % kind, self.c.is_peer(st, v), 'carries %s %s' % (str(v)[:120], at))
                    if n == 'server_timestamp' or n == 'accepted_timestamp':
                        tri(R['P25'], '%s.%s is the current time' % (kind, n), self.is_now(st, v) if not is_const(v) else False, 'is %s %s' % (v, at))
                if variant_of(E, st, it[1][2]) != 0:
                    # answered although (1) or whether or not (None) the request decoded
                    st.mon['err'] = ('parse', it[1][2], k)
                st.mon['item'] = (it[0], ('enc', k, ev.ret))

    def queued(self, E, st, ev, at):
        it = st.mon.get('item')
        if it is None or it[1] is None or it[1][0] != 'enc':
            return
        m = [v for v in ev.vals if isinstance(v, tuple) and v[0] == 'Q']
        ok = self.w.ok_of(E, st, it[1][2])
        if m and ok is not None and eqv.eq(E, st, m[0], ok) is True:
            st.mon['item'] = (it[0], ('put', it[1][1], None))

    def on_notify(self, E, st, ev):
        self.notified.append((ev.prim[0] if ev.prim else None, ev.how))
        it = st.mon.get('item')
        if it is not None and it[1] is not None and it[1][1] == 'ConnectionRequestAccepted' and it[1][0] == 'put':
            self.seen('notify')
            self.incoming = ev.prim[0] if ev.prim else None

    # -------- sending
    def on_random(self, E, st, ev):
        st.mon['drawn'] = True

    def on_print(self, E, st, ev):
        pass

    def on_sendto(self, E, st, ev):
        self.seen('sendto')
        self.sent(E, st, ev.data, ev.addr, self.at(E, ev))

    def sent(self, E, st, data, addr, at):
        w, R = self.w, self.R
        for kind in ('ack', 'nack'):
            p = st.mon.get(kind)
            if isinstance(p, tuple) and p[0] == 'enc':
                ok = w.ok_of(E, st, p[1])
                if ok is not None and eqv.eq(E, st, data, ok) is True:
                    self.pend_addr(R['P11'], 'the %s goes to the peer' % kind.upper(), E, st, addr, at)
                    st.mon[kind] = 'done'
                    self.seen(kind + ' sent')
                    return
        d = st.mon.get('due')
        if d is not None and d[0] == 'ser':
            ok = w.ok_of(E, st, d[1])
            if ok is not None and eqv.eq(E, st, data, ok) is True:
                self.pend_addr(R['P10'], 'due datagrams go to the peer', E, st, addr, at)
                st.mon['due'] = None
                self.seen('due sent')
                return
        o = st.mon.get('out')
        if o is not None:
            tri(R['P10'], 'the sending task sends datagrams unchanged', eqv.eq(E, st, data, o[0]), 'sends %s %s' % (str(data)[:120], at))
            tri(R['P10'], 'the sending task sends datagrams to their target', eqv.eq(E, st, addr, o[1]), 'sends to %s %s' % (str(addr)[:120], at))
            st.mon['out'] = None
            self.seen('out sent')
            return
        if isinstance(data, tuple) and data[0] == 'Q' and E.seq_len(data) is const(1) and first(E, st, data) is const(0x15):
            self.pend_addr(R['P14'], 'the Disconnect goes to the peer', E, st, addr, at)
            st.mon['farewell'] = True
            self.seen('farewell')

    def on_send(self, E, st, ev):
        at = self.at(E, ev)
        R = self.R
        v = ev.val
        if ev.chan.endswith('SocketAddr'):
            self.seen('collect')
            tri(R['P14'], 'the listener is told the address of the connection that ended', self.c.is_peer(st, v), 'told %s %s' % (str(v)[:100], at))
            if getattr(ev, 'try_', None) != 'Full':
                st.mon['told'] = True
            return
        if not ev.chan.endswith('Vec<u8>') or chan_name(ev.tx) != self.user:
            return
        self.seen('to application')
        it = st.mon.get('item')
        if it is None:
            R['P26'].bad('only received messages are handed to the application', 'something else is handed over %s' % at)
            return
        if it[1] == 'given':
            R['P26'].bad('a message is handed to the application once', 'a second time %s' % at)
            return
        self.malformed(E, st, 'a message is handed to the application', at)
        if getattr(ev, 'try_', None) == 'Full':
            return
        if not ev.res:
            st.mon['txfail'] = True
        q = it[0]
        tri(R['P26'], 'messages are handed over unchanged', eqv.eq(E, st, v, q), 'hands over %s %s' % (str(v)[:150], at))
        b = first(E, st, q)
        r = [self.begins(E, st, q, c, '~not') for c in CONTROL.values()]
        tri(R['P26'], 'protocol messages are not handed to the application', False if True in r else None if None in r else True,
            'a message with first byte in %s is handed over %s' % (st.rng(b), at))
        st.mon['item'] = (q, 'given')

    # -------- the end of a task
    def exit(self, E, st):
        R = self.R
        at = 'at the end of the task'
        if not st.mon.get('closed'):
            self.malformed(E, st, 'the task ends', at, True)
        self.settle(E, st, at)
        self.list_over(E, st, 'due', at)
        if st.mon.get('watch') is not None:
            self.exits.append(('watch', st.mon['watch'], bool(st.mon.get('closed'))))
            R['P14'].ok('a task ends only when the connection is closed')
            return
        ok = st.mon.get('closed') or st.mon.get('wasclosed') or st.mon.get('ended')
        R['P14'].check('a task ends only when the connection is closed', ok, '%s may end while the connection is open' % self.task)
        if 'datagram' in self.n_t:
            R['P14'].check('a connection whose datagrams end is closed', st.mon.get('closed'), '%s ends and leaves the connection open' % self.task)
        self.exits.append(('end', bool(st.mon.get('told')), bool(st.mon.get('farewell')), bool(st.mon.get('noticed')), bool(st.mon.get('own')),
                           bool(st.mon.get('drawn'))))

    def end(self):
        for c, key, why in self.later:
            self.R['P14'].check(key, c in self.looks, why)
        self.seen_tasks[self.task] = (dict(self.n_t), list(self.exits))


NAMES = {'set': 'the frames of a datagram', 'ready': 'the messages ready', 'due': 'the datagrams due'}


def lin_name(n):
    if isinstance(n, Lin) and len(n.t) == 1 and n.t[0][1] == 1 and n.t[0][0].key[0] == 'o':
        return n.t[0][0].key[1]
    return None


def result_is_ranges(w, f):
    return sig(w.P, f)[1] in w.ranges




def run(rep, prop):
    R = For(rep, prop)
    rep.rule('Both constructors are interpreted with arbitrary arguments, every task they spawn with the values it was given and arbitrary shared state '
             '(queues, encoders and decoders are black boxes).  The rules are checked on every path of every task, with the loops summarised by joins.')
    w = World()
    out = []
    for ctor in (os.environ.get('RNV_CTOR') or 'from connect_with_version').split():
        c = Conn(w, ('RaknetSocket', ctor))
        m = TaskMon(w, R, c, prop)
        out.append((ctor, c, m))
        c.E.part = m.part if m.keep is not None else None
        c.E.late_bounds = prop == 'P12'
        c.run(m)
        finish(w, R, c, m, ctor)
    return w, out


def finish(w, R, c, m, ctor):
    if os.environ.get('RNV_TRACE'):
        print(ctor, m.n)
        for t, (n, ex) in m.seen_tasks.items():
            print('  ', t, n, set(ex))

    def floor(p, *ks):
        for k in ks:
            R[p].floor('%s: %s' % (ctor, k), m.n.get(k, 0), 1)
    floor('P04', 'datagram', 'frame set', 'dec Ack', 'dec Nack', 'dec ConnectionRequest', 'dec ConnectionRequestAccepted', 'dec ConnectedPing', 'disconnected',
          'malformed', 'malformed message')
    floor('P10', 'sleep', 'send flush', 'due sent', 'out sent')
    floor('P11', 'datagram', 'recv insert', 'collect ack', 'collect nack', 'ack sent', 'nack sent')
    floor('P12', 'dec Ack', 'dec Nack', 'apply Ack', 'apply Nack')
    floor('P14', 'datagram', 'sleep', 'close', 'farewell')
    floor('P15', 'datagram', 'hbload', 'timeout')
    floor('P25', *['answered ' + k for k in ANSWER])
    floor('P26', 'recv insert', 'recv flush', 'message', 'to application')
    for t, (n, ex) in m.seen_tasks.items():
        if 'sleep' in n:
            for e in ex:
                if e[0] == 'end' and e[3] and not e[4]:
                    R['P14'].check('the peer is told when the connection was closed', e[2] or e[5], '%s ends without sending a Disconnect' % t)
    if any(w.P.ts(t).count('Sender<std::net::SocketAddr>') for t in c.argty):
        floor('P14', 'collect')
        for t, (n, ex) in m.seen_tasks.items():
            if 'collect' in n:
                R['P14'].check('the listener is told of every connection that ended', all(e[0] != 'end' or e[1] for e in ex), '%s may end without telling it' % t)
    else:
        waited = c.spawns.waited
        R['P25'].check('connecting completes once the connection is accepted', any(p == m.incoming for p in waited),
                       'the notification given on ConnectionRequestAccepted is not the one connecting waits for')
        floor('P25', 'notify')


def P04(rep):
    run(rep, 'P04')


def P10(rep):
    run(rep, 'P10')


def P11(rep):
    from . import ackset
    ackset.numbers(rep)
    run(rep, 'P11')


def P12(rep):
    run(rep, 'P12')


class CloseApi(Trace):
    def on_close(self, E, st, ev):
        if self.mine(ev.prim):
            self.seen('close')
            st.mon['own'] = True
            self.rep.check('close queues a Disconnect before it closes', st.mon.get('said'), 'closed at %s without one' % (where(E, ev)[1],))

    def on_is_closed(self, E, st, ev):
        if self.mine(ev.prim) and ev.res:
            st.mon['was'] = True

    def on_sum(self, E, st, ev):
        if ev.fn.id != self.w.send_insert.id:
            return
        self.seen('insert')
        q = [v for v in ev.vals if isinstance(v, tuple) and v[0] == 'Q']
        at = 'at %s' % where(E, ev)[1]
        r = None
        if q:
            a, b = E.seq_len(q[0]), first(E, st, q[0])
            r = True if eqv.eq_lin(st, a, const(1)) is True and eqv.eq_lin(st, b, const(0x15)) is True else False if is_const(b) or is_const(a) else None
        tri(self.rep, 'close queues a Disconnect before it closes', r, 'queues %s %s' % (str(q)[:120], at))
        self.rep.check('close queues nothing on a closed connection', not st.mon.get('was'), at)
        st.mon['said'] = True


def api_close(rep):
    w = World()
    f = w.api('RaknetSocket', 'close')
    m = CloseApi(w, rep, 'close')
    u = w.unit([m], part=False)
    for st, v in u.call(f, w.start(u, f), u.st):
        o = w.outcome(v)
        if o == 'Ok':
            rep.check('close leaves the connection closed', st.mon.get('closed'), 'a path returns Ok and leaves it open')
        elif o == 'passed on':
            e = w.made_by(u.E, dict(v[3])[1][0])
            rep.check('close fails only if the Disconnect cannot be queued', e is not None and e[0].id == w.send_insert.id, 'error made by %s' % (e and e[0].p))
        elif o is not None:
            rep.bad('close fails only if the Disconnect cannot be queued', 'returns %s' % o)
        else:
            rep.und('close outcome', str(v)[:200])
    for k in ('close', 'insert'):
        rep.floor('close: %s sites' % k, m.n.get(k, 0), 1)


def P14(rep):
    run(rep, 'P14')
    api_close(rep)


def P15(rep):
    run(rep, 'P15')


def P25(rep):
    run(rep, 'P25')


def P26(rep):
    run(rep, 'P26')


# -------- releasing an object (P24)
class Watch(Trace):
    def __init__(self, w, rep, sems):
        super().__init__(w, rep, None)
        self.sems = sems
        self.waits, self.told, self.exits = [], [], []

    def begin(self, val):
        pass

    def end(self):
        pass

    def mine(self, p):
        return p is not None and p[0] in self.sems

    def event(self, E, st, ev):
        super().event(E, st, ev)
        for k in list(st.mon):
            if k not in ('closed', 'wasclosed', 'told', '~closed', 'noticed'):
                del st.mon[k]

    def on_await(self, E, st, ev):
        if ev.fut == 'notified' and ev.prim:
            if st.mon.get('told') is None:
                st.mon['told'] = ()
            if ev.prim[0] in st.mon['told']:
                st.mon['told'] += ('again',)
            st.mon['told'] += (ev.prim[0],)
            st.mon.pop('closed', None)
            self.waits.append((self.task, ev.prim[0]))

    def on_notify(self, E, st, ev):
        if ev.prim:
            self.told.append((self.task, ev.prim[0], ev.c.ctx.fns))

    def exit(self, E, st):
        self.exits.append((self.task, st.mon.get('told') or (), bool(st.mon.get('closed')), bool(st.mon.get('wasclosed'))))


def echo(E, st, a, x):
    """is a field the value decoded: not when it is a function of that value alone which changes some value the path does not exclude"""
    r = eqv.eq(E, st, a, x)
    if r is not None or not isinstance(a, Lin) or not isinstance(x, Lin) or len(x.t) != 1 or x.c or x.t[0][1] != 1:
        return r
    at = x.t[0][0]
    facts = [tm.mk(c, l) for l, c in st.lins.items()] + list(st.nes) + [b for b in st.bools if isinstance(b, tm.Atom)]
    if any(witness.mentions(f, {at}) for f in facts):
        return None
    lo, hi = st.rng(x)
    e = witness.Env(st, None)
    for c in (-1, 1 << 33, (1 << 62) + 12345, -(1 << 40), 0, 1, 255, 256, 65536):
        if lo <= c <= hi:
            e.val = {at: c}
            try:
                if e.lin(a) != c:
                    return False
            except witness.NoEval:
                return None
    return None


class DropMon:
    def __init__(self):
        self.n = []

    def event(self, E, st, ev):
        if ev.kind == 'notify':
            self.n.append((ev.prim, ev.how))
            st.mon['n'] = st.mon.get('n', ()) + ((ev.prim, ev.how),)
        elif ev.kind == 'close':
            st.mon['c'] = st.mon.get('c', ()) + (ev.prim,)


OWNERS = (('RaknetSocket', 'from'), ('RaknetSocket', 'connect_with_version'), ('RaknetListener', 'bind'), ('RaknetListener', 'from_std'))


def P24(rep):
    rep.rule('The Drop implementations are interpreted for an arbitrary object; the constructors and every task they spawn are interpreted with the '
             'values given.  The notification given on drop must be one that is stored, be awaited (once, and by nobody else) by a spawned task, and '
             'that task must close the semaphore the object holds; nothing else gives that notification.')
    w = World()
    P = w.P
    for ty, ctor in OWNERS:
        who = '%s::%s' % (ty, ctor)
        c = Conn(w, (ty, ctor))
        m = Watch(w, rep, c.sems)
        c.run(m)
        d = [f for f in P.fns if f.blocks is not None and f.p.endswith('::drop') and 'Drop' in f.p and P.ts(sig(P, f)[0][0]) in ('&mut ' + P.ts(c.obj[1]),) or
             f.blocks is not None and f.p.endswith('Drop>::drop') and ty in f.p]
        rep.check('%s has a destructor' % ty, d, 'no Drop implementation for %s' % ty)
        if not d:
            continue
        dm = DropMon()
        u = w.unit([dm], part=False)
        args = w.start(u, d[0])
        root = args[0]
        for st, _ in u.call(d[0], args, u.st):
            ns = st.mon.get('n', ())
            cs = st.mon.get('c', ())
            direct = [p for p in cs if p is not None]
            fields_ = []
            for p, how in ns:
                k = field_of_self(u.E, st, root, p)
                if k is None:
                    rep.und('%s: what the destructor notifies' % ty, str(p)[:120])
                    continue
                fields_.append((k, how))
            if direct:
                rep.ok('%s: dropping it closes it' % ty)
                continue
            rep.check('%s: dropping it gives notice' % ty, ns, 'a path through the destructor gives none')
            for k, how in fields_:
                x = c.obj[2][k]
                loc = x[1] if isinstance(x, tuple) and x[0] == 'A' else None
                ws = [t for t, l in m.waits if l == loc]
                rep.check('%s: a task waits for the notice of the destructor' % who, ws, 'nothing spawned by %s awaits the field %s' % (ctor, c.fnames[k]))
                if not ws:
                    continue
                rep.check('%s: the notice is not lost while the task is not waiting yet' % who, how == 'notify_one', 'given with %s' % how)
                rep.check('%s: one task waits for the notice of the destructor' % who, len(set(ws)) == 1, 'also awaited by %s' % set(ws))
                for t, told, closed, was in m.exits:
                    if t in ws:
                        rep.check('%s: the notice closes the object' % who, closed or was or loc not in told, 'the waiting task may end and leave it open')
                        rep.check('%s: the task waits for one notice' % who, 'again' not in told, 'it waits a second time before it closes the object')
                others = [t for t, l, x in m.told if l == loc and d[0].id not in x] + [h for l, h, x in c.spawns.told if l == loc and d[0].id not in x]
                rep.check('%s: only the destructor gives the notice' % who, not others, 'also given by %s' % others)
                rep.count('%s: watching tasks' % who, len(ws))
            rep.floor('%s: notices given by the destructor' % who, len(fields_), 1)


def field_of_self(E, st, root, p):
    """the index of the field of *self whose shared object a primitive is"""
    if not (isinstance(p, tuple) and len(p) == 2):
        return None
    loc = p[0]
    v = E.get(st, root[1], root[2])
    if isinstance(v, tuple) and v[0] == 'O':
        v = E.expand(st, v)
    if not (isinstance(v, tuple) and v[0] == 'S'):
        return None
    for k, x in enumerate(v[2]):
        if isinstance(x, tuple) and x[0] == 'O':
            x = E.expand(st, x)
        if isinstance(x, tuple) and x[0] == 'A' and x[1] == loc:
            return k
    return None
