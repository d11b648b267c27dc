"""The listener: what it does with each datagram, whom it answers, which sessions it keeps; and whom a client listens to.

listen() is interpreted on an arbitrary listener, every task it spawns with the values it was given; so are connecting and
pinging.  Encoders, decoders and queues are black boxes (codec.py and arq.py decide those)."""
import os

from sa.unit import sig, find_fns
from sa.terms import *
from sa.interp import vkey
from sa import terms as tm
from sa import eqv
from .arq import Lost, tri
from .conn import World, Conn, Spawns, Trace, whole, first, is_addr, can_all, rooted, under
from .flow import where, local_name
from .sendq import learn_mtu, leaf_val
from .tasks import For, root_call, variant_of, chan_name, field_of_self

PING, PONG = 'PacketUnconnectedPing', 'PacketUnconnectedPong'
REQ1, REP1, REQ2, REP2 = 'OpenConnectionRequest1', 'OpenConnectionReply1', 'OpenConnectionRequest2', 'OpenConnectionReply2'
INCOMPAT, ALREADY = 'IncompatibleProtocolVersion', 'AlreadyConnected'
VERSIONS = (10, 11)
# what only a session deals with: frame sets, acknowledgements, disconnects
SESSION_IDS = tuple(range(0x80, 0x8e)) + (0xa0, 0xc0, 0x15)
# the first bytes of the datagrams each property wants something done about
WANTED = {'P07': (7,), 'P17': (5, 7), 'P18': (1, 2), 'P27': SESSION_IDS}


def same_addr(E, st, a, b):
    """are two addresses the same on this path: True, False (nothing makes them so), None"""
    if a is None or b is None:
        return None
    r = eqv.eq(E, st, a, b)
    if r is not None:
        return r
    p = E.veq(a, b)
    d = p if isinstance(p, bool) else st.decide(p)
    if d is not None:
        return bool(d)
    src = [x for x in (a, b) if isinstance(x, tuple) and x[0] == 'O' and (rooted(x[1]) or x[1].key[0] == 'localaddr' or str(x[1]).endswith('/datagram.from'))]
    if len(src) == 2 and src[0][1] is not src[1][1]:
        return False
    return None


def steps_of(n):
    """the steps from the outermost object to the one named n"""
    r = []
    while isinstance(n, Nm) and len(n.key) == 2 and isinstance(n.key[0], Nm):
        r.append(n.key[1])
        n = n.key[0]
    return n, tuple(reversed(r))


def same(E, st, a, b):
    """are two numbers the same on this path; what is asked for is arbitrary, so a witness that they differ decides"""
    r = eqv.eq(E, st, a, b)
    if r is None and isinstance(a, Lin) and isinstance(b, Lin) and can_all(st, p_not(p_eq(sub(a, b)))) is True:
        return False
    return r


def map_key(v):
    """the key under which a value lies in a map, if it does"""
    n = v[1] if isinstance(v, tuple) and v[0] == 'O' else None
    if n is None and isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][0].key[0] == 'o':
        n = v.t[0][0].key[1]
    if n is None:
        return None
    for s in steps_of(n)[1]:
        if isinstance(s, tuple) and s[0] == 'm':
            return s[1]
    return None


class Base(Trace):
    def __init__(self, w, R, E):
        super().__init__(w, None, None)
        self.w, self.R, self.E = w, R, E
        self.task = ''
        self.cycles = set()

    def at(self, E, ev):
        return 'in %s at %s' % (self.task, where(E, ev)[1])

    def on_yield(self, E, st, ev):
        st.mon['yielded'] = True

    def arrive(self, E, st, pt, back):
        if not back or st.mon.pop('yielded', None):
            return
        if pt in self.cycles:
            self.over(E, st, 'in %s' % self.task)

    def on_await(self, E, st, ev):
        if ev.fut in ('recv_from', 'recv', 'timeout'):
            self.cycles |= set(E.loops)

    def whole_dg(self, E, st, q):
        """is the byte sequence the datagram at hand, all of it"""
        dg = st.mon.get('dg')
        r = eqv.eq(E, st, q, ('Q', (('sub', dg[0], const(0), dg[1]),), ()))
        if r is None and isinstance(q, tuple) and q[0] == 'Q':
            n = E.seq_len(q)
            if isinstance(n, Lin) and can_all(st, p_ge(addc(dg[1], -1)), p_not(p_eq(sub(n, dg[1])))) is True:
                return False
        return r

    def on_recvfrom(self, E, st, ev):
        self.clear(st)
        st.mon['dg'] = (ev.pkt, ev.n, ev.addr)
        self.seen('datagram')

    def clear(self, st):
        for k in list(st.mon):
            if k not in ('yielded', 'closed', 'wasclosed', '~closed'):
                del st.mon[k]

    def note(self, st, k, v):
        st.mon[k] = tuple(x for x in st.mon.get(k, ()) if x != v) + (v,)

    def can_be(self, st, ids):
        dg = st.mon['dg']
        b = first(self.E, st, ('Q', (('sub', dg[0], const(0), dg[1]),), ()))
        return (st.rng(b), st.rng(dg[1])), tuple((c, can_all(st, p_ge(addc(dg[1], -1)), p_eq(addc(b, -c)))) for c in ids)

    def addr_facts(self, st):
        return tuple(sorted((a.id, b) for a, b in st.bools.items() if isinstance(a, Atom) and a.key[0] in ('veq', 'in')))


class Listener:
    """an arbitrary listener, listening"""
    def __init__(self, w):
        P = w.P
        self.w = w
        # what the listener shares: which field holds the motd, learned from set_full_motd
        self.sp = Spawns()
        u = self.u = w.unit([self.sp], part=False)
        self.E = u.E
        f = w.api('RaknetListener', 'listen')
        self.args = w.start(u, f)
        self.ty = w.self_ty(f)
        self.exits = u.call(f, self.args, u.st)
        self.root = self.args[0]
        self.fields = P.types[self.ty]['v'][0]['f']

    def run(self, mon):
        E = self.E
        E.monitors = [mon]
        for val, st in self.sp.v:
            p = self.w.P.types[val[1]].get('dp') or self.w.P.types[val[1]]['p']
            E.fmemo.clear()
            st = st.copy()
            st.mon.clear()
            mon.task = local_name(p).replace('::{closure#0}', '')
            mon.n_t = {}
            mon.cycles = set()
            for s, v in self.w.run.run_cor(E, val[1], val, st):
                mon.exit(E, s)
            mon.end()

    def field_no(self, word):
        r = [i for i, (_, t) in enumerate(self.fields) if word(self.w.P.ts(t))]
        return r[0] if len(r) == 1 else None


class ListenMon(Base):
    def __init__(self, w, R, L, motd_field, mtu):
        super().__init__(w, R, L.E)
        self.L = L
        self.motd_field = motd_field
        self.mtu = mtu
        k = L.field_no(lambda t: t == 'u64')
        E, st = L.E, L.u.st
        self.guid = E.get(st, L.root[1], L.root[2] + (('f', k, L.fields[k][1]),)) if k is not None else None

    def part(self, st):
        return self.addr_facts(st), self.lost(st)

    def lost(self, st):
        """while the datagram at hand is neither decoded nor passed on: what its length and first byte can be on this path"""
        dg = st.mon.get('dg')
        if dg is None or 'dec' in st.mon or 'fwd' in st.mon or self.R.prop == 'P27' and 'has sessions' in st.mon:
            return None
        return self.can_be(st, WANTED[self.R.prop])

    def end(self):
        pass

    # ---- maps: sessions (address -> sender), versions (address -> version)
    def kind(self, st, ev):
        for l in st.locks:
            if l[3] == ev.loc:
                if 'Sender' in str(l[0]):
                    return 'sessions'
                if str(l[0]).rstrip('>').endswith('u8'):
                    return 'versions'
        return 'sessions' if is_addr(self.w.P, ev.key) else None

    def key_ok(self, E, st, key):
        dg = st.mon.get('dg')
        if dg is None:
            return None
        if is_addr(self.w.P, key):
            return same_addr(E, st, key, dg[2])
        n = whole(E, key)
        if n is not None and n.key[0] == 'tostr':
            if n.key[1] == vkey(dg[2]):
                return True
        # only a part of the address, which peers share
        d = str(n.key if n is not None else vkey(key))
        a = str(dg[2][1])
        parts = ('%s.(oct' % a in d or '%s.oct' % a in d, '%s.port' % a in d)
        return False if parts in ((True, False), (False, True)) and d.count(a) == d.count(a + '.') + d.count('discr(%s)' % a) else None

    def on_maphas(self, E, st, ev):
        k = self.kind(st, ev)
        if k is None or st.mon.get('dg') is None:
            return
        ok = self.key_ok(E, st, ev.key)
        if ok is True:
            st.mon['has ' + k] = bool(ev.has)
        if k == 'versions' and ev.has:
            st.mon['verkey'] = ok

    def on_maprem(self, E, st, ev):
        k = self.kind(st, ev)
        if st.mon.get('dg') is None:
            return
        if k == 'sessions':
            self.seen('session removed')
            tri(self.R['P07'], 'a datagram ends no session but that of its sender', self.key_ok(E, st, ev.key), 'removes %s %s' % (str(ev.key)[:100], self.at(E, ev)))
            st.mon['has sessions'] = bool(ev.had)

    def on_mapclear(self, E, st, ev):
        if st.mon.get('dg') is not None and any(l[3] == ev.loc and 'Sender' in str(l[0]) for l in st.locks):
            self.R['P07'].bad('a datagram ends no session but that of its sender', 'all sessions removed %s' % self.at(E, ev))

    def on_mapins(self, E, st, ev):
        k = self.kind(st, ev)
        if st.mon.get('dg') is None:
            return
        at = self.at(E, ev)
        if k == 'sessions':
            self.seen('session made')
            R = self.R['P07']
            R.check('a session is made only for a peer that has none', not ev.had, 'an existing session is replaced %s' % at)
            tri(R, 'a session is kept under the address of its peer', self.key_ok(E, st, ev.key), 'kept under %s %s' % (str(ev.key)[:100], at))
            tx = [x for x in (ev.val[1] if isinstance(ev.val, tuple) and ev.val[0] in ('T',) else ev.val[2] if isinstance(ev.val, tuple) and ev.val[0] == 'S' else (ev.val,))
                  if chan_name(x) and str(x[1]).endswith('.tx')]
            ch = chan_name(tx[0]) if len(tx) == 1 else None
            given = st.mon.get('rxs', ())
            if ch is None:
                R.und('a session receives the datagrams of its peer', str(ev.val)[:200])
            else:
                R.check('a session receives the datagrams of its peer', ch in given, 'the channel kept for the session is not the one its connection reads, %s' % at)
            st.mon['ins'] = ch
        elif k == 'versions':
            self.seen('version recorded')
            self.note(st, 'vrec', (ev.key, ev.val))
            tri(self.R['P17'], 'the version is recorded for the sender of the request', self.key_ok(E, st, ev.key), 'recorded for %s %s' % (str(ev.key)[:100], at))

    def on_spawn(self, E, st, ev):
        def rx(v, d=0):
            if isinstance(v, tuple) and d < 3:
                if v[0] == 'O' and str(v[1]).endswith('.rx'):
                    self.note(st, 'rxs', chan_name(v))
                elif v[0] == 'C':
                    for x in v[2]:
                        rx(x, d + 1)
        rx(ev.val)

    def on_lock(self, E, st, ev):
        if st.mon.get('dg') is not None and 'String' in str(ev.lock) and 'Map' not in str(ev.lock):
            r = ev.ref
            k = field_of_self(E, st, self.L.root, (r[1], r[2])) if isinstance(r, tuple) and r[0] == 'R' else None
            c = ev.content
            if isinstance(c, tuple) and c[0] == 'n':
                own = k is None and r[1][0] == 'h' and isinstance(r[1][1], Nm) and not rooted(r[1][1])
                st.mon['motd'] = (c[1], 'own' if own else k)

    # ---- what is decoded and encoded
    def on_sum(self, E, st, ev):
        if st.mon.get('dg') is None:
            return
        w = self.w
        if ev.fn.id in w.dec:
            n = w.dec[ev.fn.id]
            self.seen('dec ' + n)
            self.note(st, 'dec', (n, ev.ret))
            q = [v for v in ev.vals if isinstance(v, tuple) and v[0] == 'Q']
            if q:
                tri(self.R['P27'], 'a decoder of the listener is given the whole datagram', self.whole_dg(E, st, q[0]), '%s decodes %s %s' % (n, str(q[0])[:200], self.at(E, ev)))
        elif ev.fn.id in w.enc:
            self.note(st, 'enc', (w.enc[ev.fn.id], ev.ret))

    def dec(self, st, name):
        """(result, does it decode) of the request of that kind in the datagram at hand"""
        for n, r in st.mon.get('dec', ()):
            if n == name:
                return r, variant_of(self.E, st, r)
        return None, None

    def carried(self, n):
        """is it a value a variable had when the cycle began"""
        k = n.key
        return len(k) > 1 and k[0] == 'phi' and isinstance(k[1], tuple) and k[1][0] == 'L' and k[1][1] in self.cycles

    # ---- answering
    def on_sendto(self, E, st, ev):
        dg = st.mon.get('dg')
        if dg is None:
            return
        at = self.at(E, ev)
        self.seen('reply')
        tri(self.R['P27'], 'the listener answers the sender of the datagram', same_addr(E, st, ev.addr, dg[2]), 'answers %s %s' % (str(ev.addr)[:120], at))
        m = self.w.made_by(E, ev.data) if isinstance(ev.data, tuple) else None
        if m is None or m[0].id not in self.w.enc:
            self.note(st, 'ans', '?')
            if self.dec(st, PING)[1] == 0 and 'PacketUnconnectedPong' not in [n for n, _ in st.mon.get('enc', ())]:
                R, key = self.R['P18'], 'a pong carries the motd as it is when the ping is answered'
                d = ev.data
                if isinstance(d, tuple) and d[0] == 'Q' and not d[2] and all(g[0] == 'sub' and self.carried(g[1]) for g in d[1]):
                    R.bad(key, 'a ping is answered with %s %s' % ('bytes made before it came (%s)' % (d[1][0][1],) if d[1] else 'nothing', at))
                else:
                    R.und(key, 'answered with %s %s' % (str(d)[:200], at))
            return
        name = self.w.enc[m[0].id]
        self.seen('ans ' + name)
        v = self.packet(E, st, m)
        self.note(st, 'ans', name)
        h = getattr(self, 'ans_' + name, None)
        if h:
            h(E, st, v, at)

    def packet(self, E, st, m):
        r = {}
        for v in m[1]:
            if isinstance(v, tuple) and v[0] == 'O':
                v = E.expand(st, v)
            if isinstance(v, tuple) and v[0] == 'S':
                for (n, _), x in zip(self.w.P.types[v[1]]['v'][0]['f'], v[2]):
                    r[n] = x
        return r

    def asked(self, E, st, name, what, key, R, at):
        r, v = self.dec(st, name)
        if r is None or v == 1:
            R.bad(key, '%s answers something else %s' % (what, at))
            return None
        if v is None:
            R.bad(key, '%s whether or not the request decodes %s' % (what, at))
            return None
        R.ok(key)
        return self.w.payload_of(E, st, r)

    def ans_PacketUnconnectedPong(self, E, st, v, at):
        R = self.R['P18']
        self.asked(E, st, PING, 'a pong', 'a pong answers a ping that decodes', R, at)
        key = 'a pong carries the motd as it is when the ping is answered'
        q = v.get('motd')
        n = whole(E, q) if q is not None else None
        m = st.mon.get('motd')
        if n is None:
            lit = isinstance(q, tuple) and q[0] == 'Q' and all(g[0] == 'one' for g in q[1])
            (R.bad if lit else R.und)(key, 'motd %s %s' % (str(q)[:200], at))
        elif m is not None and (n is m[0] or under(n, m[0]) is not None):
            R.ok(key)
            k2 = 'a pong carries the motd that set_motd and set_full_motd set'
            if m[1] is None or self.motd_field is None:
                R.und(k2, at)
            else:
                R.check(k2, m[1] == self.motd_field, 'it carries %s %s' % ('a copy made when listening began' if m[1] == 'own' else 'field %s of the listener' % self.L.fields[m[1]][0], at))
        elif rooted(n) or 'locked' in str(n):
            R.bad(key, 'a copy made before the ping is received (%s) %s' % (str(n)[:120], at))
        else:
            R.und(key, 'motd %s %s' % (str(n)[:200], at))
        if self.guid is not None and 'guid' in v:
            tri(R, 'a pong carries the id of its listener', same(E, st, v['guid'], self.guid), 'guid %s %s' % (str(v['guid'])[:100], at))

    def ans_OpenConnectionReply1(self, E, st, v, at):
        R = self.R['P17']
        q = self.asked(E, st, REQ1, 'a reply 1', 'a reply 1 answers a request 1 that decodes', R, at)
        if not q:
            return
        x = q.get('protocol_version')
        key = 'only a supported version is accepted'
        r = can_all(st, *[p_not(p_eq(addc(x, -k))) for k in VERSIONS]) if x is not None else None
        tri(R, key, None if r is None else not r, 'a reply 1 to a version in %s %s' % (st.rng(x) if x is not None else '?', at))
        rec = st.mon.get('vrec', ())
        R.check('the version of a request that is accepted is recorded', rec, 'a reply 1 without recording the version %s' % at)
        for k, val in rec:
            tri(R, 'the version recorded is the one requested', same(E, st, val, x), 'records %s %s' % (str(val)[:100], at))

    def ans_IncompatibleProtocolVersion(self, E, st, v, at):
        R = self.R['P17']
        q = self.asked(E, st, REQ1, 'a refusal', 'a refusal answers a request 1 that decodes', R, at)
        if not q:
            return
        x = q.get('protocol_version')
        rs = [can_all(st, p_eq(addc(x, -k))) for k in VERSIONS] if x is not None else [None]
        tri(R, 'a supported version is not refused', False if True in rs else None if None in rs else True, 'a refusal of a version in %s %s' % (st.rng(x) if x is not None else '?', at))
        R.check('a refused version is not recorded', not st.mon.get('vrec'), 'recorded %s' % at)
        p = v.get('server_protocol')
        if p is not None:
            tri(R, 'a refusal names a supported version', True if is_const(p) and p.c in VERSIONS else False if is_const(p) else None, 'names %s %s' % (p, at))

    def ans_OpenConnectionReply2(self, E, st, v, at):
        R = self.R['P17']
        q = self.asked(E, st, REQ2, 'a reply 2', 'a reply 2 answers a request 2 that decodes', R, at)
        if not q:
            return
        tri(R, 'a reply 2 carries the address of the client', same_addr(E, st, v.get('address'), st.mon['dg'][2]), 'carries %s %s' % (str(v.get('address'))[:100], at))
        if v.get('mtu') is not None and q.get('mtu') is not None:
            tri(R, 'a reply 2 carries the MTU requested', same(E, st, v['mtu'], q['mtu']), 'carries %s %s' % (str(v['mtu'])[:100], at))
        self.R['P07'].check('a peer that has a session is not told that a new one was opened', st.mon.get('has sessions') is not True, at)

    def ans_AlreadyConnected(self, E, st, v, at):
        R = self.R['P07']
        self.asked(E, st, REQ2, '"already connected"', '"already connected" answers a request 2 that decodes', R, at)
        h = st.mon.get('has sessions')
        tri(R, 'only a peer that has a session is told that it is connected already', h, 'told to a peer without session %s' % at)

    # ---- sessions
    def on_newlock(self, E, st, ev):
        if st.mon.get('dg') is None or self.mtu is None or ev.ty != self.w.sendq_ty:
            return
        r, v = self.dec(st, REQ2)
        if r is None:
            return
        q = self.w.payload_of(E, st, r)
        x = leaf_val(E, st, ev.val, self.mtu[0])
        if q.get('mtu') is None or not isinstance(x, Lin):
            return
        self.seen('session mtu')
        clamp_ok(self.R['P17'], E, st, x, q['mtu'], self.mtu, 'a session uses the MTU requested, kept within its bounds', self.at(E, ev))

    def on_send(self, E, st, ev):
        dg = st.mon.get('dg')
        if dg is None:
            return
        at = self.at(E, ev)
        if 'RaknetSocket' in str(ev.chan):
            self.seen('handed over')
            v = ev.val
            R = self.R['P07']
            if isinstance(v, tuple) and v[0] == 'S':
                a = v[2][self.w.peer_field] if self.w.peer_field is not None else None
                tri(R, 'the connection handed to accept is that of the peer that asked', same_addr(E, st, a, dg[2]) if a is not None else None, 'peer %s %s' % (str(a)[:100], at))
                x = v[2][self.w.raknet_field] if self.w.raknet_field is not None else None
                self.version_of(E, st, x, at)
            R.check('a connection handed to accept has a session', 'ins' in st.mon, 'no session was kept for it %s' % at)
            R.check('a connection is handed to accept once', not st.mon.get('gave'), 'twice %s' % at)
            if getattr(ev, 'try_', None) != 'Full':
                st.mon['gave'] = True
            return
        if 'u8' not in str(ev.chan):
            return
        self.seen('forward')
        R = self.R['P27']
        k = map_key(ev.tx)
        key = 'a datagram reaches the session of its sender only'
        if k is not None:
            a = k if isinstance(k, tuple) else None
            ok = a == vkey(dg[2]) or a == dg[2]
            if ok:
                R.ok(key)
            else:
                r = same_addr(E, st, k, dg[2]) if is_addr(self.w.P, k) else None
                tri(R, key, r, 'sent to the session of %s %s' % (str(k)[:100], at))
        elif chan_name(ev.tx) is not None and chan_name(ev.tx) == st.mon.get('ins'):
            R.ok(key)
        else:
            R.und(key, str(ev.tx)[:200])
        tri(R, 'a datagram reaches its session unchanged and whole', self.whole_dg(E, st, ev.val), 'sends %s %s' % (str(ev.val)[:200], at))
        R.check('a datagram reaches its session once', not st.mon.get('fwd'), 'twice %s' % at)
        if getattr(ev, 'try_', None) != 'Full':
            st.mon['fwd'] = True

    def on_await(self, E, st, ev):
        super().on_await(E, st, ev)
        if ev.fut == 'send' and st.mon.get('dg') is not None:
            # the wait may be given up when the listener closes
            st.mon['trying'] = 'S' if 'RaknetSocket' in str(ev.chan) else 'u8'

    def version_of(self, E, st, x, at):
        R = self.R['P17']
        key = 'a connection reports the version its peer asked for'
        if x is None:
            return
        k = map_key(x)
        dg = st.mon['dg']
        h = st.mon.get('has versions')
        if k is not None:
            n = nm(('tostr', vkey(dg[2])))
            if k == dg[2] or k == vkey(dg[2]) or str(n) in str(k):
                R.ok(key)
            else:
                tri(R, key, st.mon.get('verkey'), 'taken from %s %s' % (str(k)[:120], at))
        elif is_const(x):
            R.check(key, h is not True, 'reports %s although another version may have been recorded %s' % (x, at))
            tri(R, 'without a recorded version the default is reported', True if x.c in VERSIONS else False, 'reports %s %s' % (x, at))
        else:
            R.und(key, '%s %s' % (str(x)[:120], at))

    # ---- the end of a cycle
    def over(self, E, st, at):
        dg = st.mon.get('dg')
        if dg is None:
            return
        ans = st.mon.get('ans', ())
        failed = any(variant_of(E, st, r) == 1 for _, r in st.mon.get('enc', ()))
        closing = st.mon.get('wasclosed')
        some = '?' in ans
        r, v = self.dec(st, PING)
        if r is not None and v == 0 and not closing:
            self.R['P18'].check('every ping that decodes is answered', PONG in ans or failed or some, 'a ping is not answered %s' % at)
            self.R['P18'].check('a ping is answered once', ans.count(PONG) <= 1, at)
        r, v = self.dec(st, REQ1)
        if r is not None and v == 0 and not closing:
            self.R['P17'].check('every request 1 that decodes is answered', REP1 in ans or INCOMPAT in ans or failed or some, 'not answered %s' % at)
        r, v = self.dec(st, REQ2)
        has = st.mon.get('has sessions')
        if r is not None and v == 0 and not closing and not failed:
            self.R['P17'].check('every request 2 that decodes is answered', REP2 in ans or ALREADY in ans or some, 'not answered %s' % at)
            self.R['P07'].check('a peer that opens a connection gets a session', has is True or 'ins' in st.mon or some, 'no session is made %s' % at)
            self.R['P07'].check('a peer that has a session is told so', has is not True or ALREADY in ans or some, 'not told %s' % at)
            if 'ins' in st.mon:
                self.R['P07'].check('a new session is handed to accept', st.mon.get('gave'), 'a session is kept and its connection dropped %s' % at)
        elif r is None and not closing:
            if has:
                self.R['P27'].check('every datagram of a connected peer reaches its session', st.mon.get('fwd'), 'a datagram of a connected peer is dropped %s' % at)
            elif has is None and not st.mon.get('dec'):
                self.ignored(st, 'P27', 'every datagram of a connected peer reaches its session', SESSION_IDS, at)
        if not closing and not st.mon.get('dec') and not st.mon.get('fwd') and not ans:
            for p, key, ids in (('P18', 'every ping that decodes is answered', (1, 2)), ('P17', 'every request 1 that decodes is answered', (5,)),
                                ('P17', 'every request 2 that decodes is answered', (7,)), ('P07', 'a peer that opens a connection gets a session', (7,))):
                if p == self.R.prop:
                    self.ignored(st, p, key, ids, at)
        self.clear(st)

    def ignored(self, st, prop, key, ids, at):
        if self.R.prop != prop:
            return
        rs = self.can_be(st, ids)[1]
        bad = [c for c, x in rs if x is True]
        if bad:
            self.R[prop].bad(key, 'one with first byte %#x is dropped %s' % (bad[0], at))
        elif all(x is False for _, x in rs):
            self.R[prop].ok(key)
        else:
            self.R[prop].und(key, at)

    def exit(self, E, st):
        pass


def clamp_ok(R, E, st, x, want, mtu, key, at):
    r = eqv.eq(E, st, x, want)
    if r is True:
        R.ok(key)
        return
    if is_const(x) and x.c in (mtu[1], mtu[2]):
        # the bound itself: only where the value asked for lies at or beyond it
        p = p_ge(sub(x, want)) if x.c == mtu[1] else p_ge(sub(want, x))
        c = can_all(st, p_not(p))
        tri(R, key, None if c is None else not c, 'uses %s %s' % (x, at))
        return
    tri(R, key, r, 'uses %s %s' % (str(x)[:100], at))


# ------------------------------------------------------------------ motd
class MotdMon(Trace):
    def on_unlock(self, E, st, ev):
        if 'String' in str(ev.lock) and 'Map' not in str(ev.lock):
            st.mon['un'] = st.mon.get('un', ()) + (E.get(st, ev.content, ()),)

    def on_lock(self, E, st, ev):
        if 'String' in str(ev.lock) and 'Map' not in str(ev.lock):
            r = ev.ref
            st.mon['lk'] = (ev.content, (r[1], r[2]) if isinstance(r, tuple) and r[0] == 'R' else None)


def motd_api(w, R):
    """set_full_motd and set_motd replace the string that get_motd returns; the field of the listener that holds it"""
    rep = R['P18']
    ks = {}
    for name in ('set_full_motd', 'set_motd', 'get_motd'):
        f = w.api('RaknetListener', name)
        u = w.unit([MotdMon(w, None, None)], part=False)
        a = w.start(u, f)
        n = 0
        for st, v in u.call(f, a, u.st):
            n += 1
            lk = st.mon.get('lk')
            if lk is None:
                rep.und('%s uses the motd of the listener' % name, 'no lock of a string')
                continue
            k = field_of_self(u.E, st, a[0], lk[1]) if lk[1] else None
            if k is not None:
                ks.setdefault(name, set()).add(k)
            un = st.mon.get('un', ())
            if name == 'get_motd':
                q = whole(u.E, v)
                c = lk[0]
                if q is None or not (isinstance(c, tuple) and c[0] == 'n'):
                    lit = isinstance(v, tuple) and v[0] == 'Q' and all(g[0] == 'one' for g in v[1])
                    (rep.bad if lit else rep.und)('get_motd returns the motd', str(v)[:200])
                else:
                    rep.check('get_motd returns the motd', q is c[1] or under(q, c[1]) is not None, 'returns %s' % str(v)[:200])
            elif name == 'set_full_motd':
                tri(rep, 'set_full_motd sets the whole motd', eqv.eq(u.E, st, un[-1], a[1]) if un else False, 'sets %s' % str(un and un[-1])[:200])
            else:
                x = un[-1] if un else None
                same = x is not None and lk[0][0] == 'n' and whole(u.E, x) is lk[0][1]
                rep.check('set_motd changes the motd', x is not None and not same, 'the motd stays as it was')
        rep.floor('%s: exits' % name, n, 1)
    s = set().union(*ks.values()) if ks else set()
    rep.check('set_motd, set_full_motd and get_motd agree on the motd', len(s) <= 1, 'they use different fields: %s' % ks)
    return s.pop() if len(s) == 1 else None


# ------------------------------------------------------------------ clients
class ClientMon(Base):
    """connecting and pinging: whom they listen to, what they conclude"""
    def __init__(self, w, R, E, name, addr, version, mtu):
        super().__init__(w, R, E)
        self.name = self.task = name
        self.addr, self.version, self.mtu = addr, version, mtu

    def part(self, st):
        if self.R.prop != 'P17' or st.mon.get('dg') is None or st.mon.get('req2'):
            return self.addr_facts(st)
        return self.addr_facts(st), self.can_be(st, (0x19,))

    def on_recvfrom(self, E, st, ev):
        st.mon['dg'] = (ev.pkt, ev.n, ev.addr)
        self.seen('datagram')

    def from_server(self, E, st, what, at):
        dg = st.mon.get('dg')
        if dg is None:
            return
        key = '%s uses the datagrams of the host it was given only' % self.name
        tri(self.R['P27'], key, same_addr(E, st, dg[2], self.addr), '%s with a datagram of another host %s' % (what, at))

    def on_sum(self, E, st, ev):
        w = self.w
        at = self.at(E, ev)
        if ev.fn.id in w.dec:
            n = w.dec[ev.fn.id]
            self.seen('dec ' + n)
            st.mon['dec ' + n] = ev.ret
            q = [v for v in ev.vals if isinstance(v, tuple) and v[0] == 'Q']
            if q and st.mon.get('dg') is not None:
                tri(self.R['P27'], '%s decodes the whole datagram it received' % self.name, self.whole_dg(E, st, q[0]), '%s decodes %s %s' % (n, str(q[0])[:200], at))
        elif ev.fn.id in w.enc:
            n = w.enc[ev.fn.id]
            v = {}
            for x in ev.vals:
                if isinstance(x, tuple) and x[0] == 'O':
                    x = E.expand(st, x)
                if isinstance(x, tuple) and x[0] == 'S':
                    v.update({k: y for (k, _), y in zip(w.P.types[x[1]]['v'][0]['f'], x[2])})
            self.seen('enc ' + n)
            R = self.R['P17']
            if n == REQ1 and self.version is not None:
                tri(R, 'a client asks for the version it was given', same(E, st, v.get('protocol_version'), self.version), 'asks for %s %s' % (v.get('protocol_version'), at))
            if n == REQ2:
                self.from_server(E, st, 'goes on', at)
                r = st.mon.get('dec ' + REP1)
                m = v.get('mtu')
                if r is None:
                    R.bad('a client goes on only after a reply 1', 'a request 2 is made without one %s' % at)
                elif m is not None:
                    q = w.payload_of(E, st, r)
                    tri(R, 'a request 2 asks for the MTU the server offered', same(E, st, m, q.get('mtu_size')), 'asks for %s %s' % (str(m)[:100], at))
                    tri(R, 'a request 2 carries the address of the server', same_addr(E, st, v.get('address'), self.addr), 'carries %s %s' % (str(v.get('address'))[:100], at))
                st.mon['req2'] = True

    def on_sendto(self, E, st, ev):
        tri(self.R['P27'], '%s sends to the host it was given' % self.name, same_addr(E, st, ev.addr, self.addr), 'sends to %s %s' % (str(ev.addr)[:100], self.at(E, ev)))
        self.seen('sendto')

    def on_newlock(self, E, st, ev):
        if self.mtu is None or ev.ty != self.w.sendq_ty:
            return
        r = st.mon.get('dec ' + REP1)
        x = leaf_val(E, st, ev.val, self.mtu[0])
        q = self.w.payload_of(E, st, r) if r is not None else {}
        if isinstance(x, Lin) and q.get('mtu_size') is not None:
            self.seen('session mtu')
            clamp_ok(self.R['P17'], E, st, x, q['mtu_size'], self.mtu, 'a client uses the MTU the server offered, kept within its bounds', self.at(E, ev))

    def on_await(self, E, st, ev):
        super().on_await(E, st, ev)
        if ev.fut in ('recv_from', 'timeout'):
            st.mon.pop('dg', None)

    def over(self, E, st, at):
        dg = st.mon.get('dg')
        if dg is not None and not st.mon.get('req2') and self.version is not None:
            b = first(E, st, ('Q', (('sub', dg[0], const(0), dg[1]),), ()))
            key = 'connecting ends when the server refuses the version'
            if same_addr(E, st, dg[2], self.addr) is False and st.decide(E.veq(dg[2], self.addr)) is False:
                self.R['P17'].ok(key)
            else:
                r = can_all(st, p_ge(addc(dg[1], -1)), p_eq(addc(b, -0x19)))
                tri(self.R['P17'], key, None if r is None else not r, 'the refusal is ignored %s' % at)
        st.mon.pop('dg', None)
        st.mon.pop('dg', None)


def client(w, R, name, ctor, mtu):
    f = w.api('RaknetSocket', ctor)
    u = w.unit([], part=False)
    E = u.E
    a = w.start(u, f)
    from sa.models import deref
    ty = sig(w.P, f)[0]
    addr = next(deref(E, u.st, x) if w.P.types[t]['k'] == 'ref' else x for x, t in zip(a, ty) if w.P.ts(t).endswith('SocketAddr'))
    ver = [x for x, t in zip(a, ty) if w.P.ts(t) == 'u8']
    m = ClientMon(w, R, E, name, addr, ver[0] if ver else None, mtu)
    E.monitors = [m]
    E.part = m.part
    n = {}
    for st, v in u.call(f, a, u.st):
        o = w.outcome(v)
        n[o] = n.get(o, 0) + 1
        at = 'at an exit with %s' % o
        m.from_server(E, st, 'it ends', at)
        dg = st.mon.get('dg')
        if ver:
            RR = R['P17']
            if o == 'NotSupportVersion':
                if dg is None:
                    RR.bad('connecting reports an unsupported version only when the server refuses it', at)
                else:
                    b = first(E, st, ('Q', (('sub', dg[0], const(0), dg[1]),), ()))
                    r = can_all(st, p_not(p_eq(addc(b, -0x19))))
                    tri(RR, 'connecting reports an unsupported version only when the server refuses it', None if r is None else not r, 'after first byte in %s' % (st.rng(b),))
            elif o == 'Ok':
                for k in (REP1, REP2):
                    r = st.mon.get('dec ' + k)
                    RR.check('connecting succeeds only after both replies of the server', r is not None and variant_of(E, st, r) == 0, 'without a %s that decodes' % k)
        elif o == 'Ok':
            RR = R['P18']
            p = w.payload(v)
            r = st.mon.get('dec ' + PONG)
            if r is None:
                RR.bad('ping returns what the pong says', 'without a pong')
                continue
            RR.check('ping succeeds only with a pong that decodes', variant_of(E, st, r) == 0, at)
            q = w.payload_of(E, st, r)
            if isinstance(p, tuple) and p[0] == 'T':
                s = [x for x in p[1] if isinstance(x, tuple) and x[0] == 'Q']
                tri(RR, 'ping returns the motd of the pong', eqv.eq(E, st, s[0], q.get('motd')) if s and q.get('motd') is not None else None, 'returns %s' % str(s)[:200])
    if ver:
        R['P17'].floor('%s: refused exits' % name, n.get('NotSupportVersion', 0), 1)
        for k in ('enc ' + REQ1, 'enc ' + REQ2, 'dec ' + REP1, 'dec ' + REP2, 'session mtu'):
            R['P17'].floor('%s: %s' % (name, k), m.n.get(k, 0), 1)
    else:
        R['P18'].floor('%s: successes' % name, n.get('Ok', 0), 1)
    for k in ('datagram', 'sendto'):
        R['P27'].floor('%s: %s' % (name, k), m.n.get(k, 0), 1)


class ClientRecv(Base):
    """the task of a client that reads its UDP socket"""
    def __init__(self, w, R, c):
        super().__init__(w, R, c.E)
        self.c = c
        self.sems = c.sems

    def mine(self, p):
        return p is not None and p[0] in self.sems and p[1] == ()

    def begin(self, val):
        self.cycles = set()

    def end(self):
        pass

    def part(self, st):
        return self.addr_facts(st)

    def on_send(self, E, st, ev):
        dg = st.mon.get('dg')
        if dg is None:
            return
        self.seen('forward')
        R = self.R['P27']
        at = self.at(E, ev)
        tri(R, 'a connection takes the datagrams of its peer only', same_addr(E, st, dg[2], self.c.addr), 'a datagram of another host is taken %s' % at)
        tri(R, 'a connection takes a datagram unchanged and whole', self.whole_dg(E, st, ev.val), 'takes %s %s' % (str(ev.val)[:200], at))
        R.check('a connection takes a datagram once', not st.mon.get('fwd'), at)
        if getattr(ev, 'try_', None) != 'Full':
            st.mon['fwd'] = True

    def over(self, E, st, at):
        dg = st.mon.get('dg')
        if dg is not None:
            d = st.decide(E.veq(dg[2], self.c.addr))
            if d is not False and not st.mon.get('fwd') and not st.mon.get('closed') and not st.mon.get('wasclosed'):
                r = can_all(st, p_ge(addc(dg[1], -1)))
                tri(self.R['P27'], 'every datagram of the peer reaches the connection', None if r is None else not r, 'one is dropped %s' % at)
            else:
                self.R['P27'].ok('every datagram of the peer reaches the connection')
        self.clear(st)

    def exit(self, E, st):
        pass


def run(rep, prop):
    R = For(rep, prop)
    rep.rule('listen(), connect and ping are interpreted for an arbitrary listener and arbitrary arguments, and so is every task they spawn, with the '
             'values it was given; what is done with one datagram is followed from its reception to the next wait, on every path.')
    w = World()
    from .conn import roles
    roles(w)
    mtu = learn_mtu(w) if prop == 'P17' else None
    motd = motd_api(w, R) if prop == 'P18' else None
    L = Listener(w)
    m = ListenMon(w, R, L, motd, mtu)
    L.E.part = m.part
    L.run(m)
    if os.environ.get('RNV_TRACE'):
        print(m.n)

    def floor(p, *ks):
        for k in ks:
            R[p].floor('listener: %s' % k, m.n.get(k, 0), 1)
    floor('P27', 'datagram', 'reply', 'forward')
    floor('P07', 'session made', 'handed over', 'ans ' + ALREADY, 'session removed')
    floor('P17', 'dec ' + REQ1, 'dec ' + REQ2, 'ans ' + REP1, 'ans ' + REP2, 'ans ' + INCOMPAT, 'version recorded', 'session mtu')
    floor('P18', 'dec ' + PING, 'ans ' + PONG)
    if prop == 'P17':
        version_api(w, rep)
    if prop in ('P27', 'P17'):
        client(w, R, 'connect', 'connect_with_version', mtu)
    if prop in ('P27', 'P18'):
        client(w, R, 'ping', 'ping', None)
    if prop == 'P27':
        c = Conn(w, ('RaknetSocket', 'connect_with_version'))
        m = ClientRecv(w, R, c)
        c.E.part = m.part
        c.run(m)
        R['P27'].floor('connection: datagram', m.n.get('datagram', 0), 1)
        R['P27'].floor('connection: forward', m.n.get('forward', 0), 1)
    if prop == 'P07':
        for ctor in ('bind', 'from_std'):
            channels(w, rep, ctor)


def channels(w, rep, ctor):
    """the connections a listener makes are the ones its accept returns"""
    c = Conn(w, ('RaknetListener', ctor))
    for st, o in c.made:
        tx = set(chan_name(x) for x in o[2] if chan_name(x) and str(x[1]).endswith('.tx'))
        rx = set(chan_name(x) for x in o[2] if chan_name(x) and str(x[1]).endswith('.rx'))
        if len(tx) == len(rx) == 1:
            rep.check('%s: accept reads what the listener makes' % ctor, tx == rx, 'the two ends kept are of different channels')
        else:
            rep.und('%s: accept reads what the listener makes' % ctor, '%s %s' % (tx, rx))
    rep.floor('%s: listeners made' % ctor, len(c.made), 1)


class VerMon(Trace):
    def on_maphas(self, E, st, ev):
        st.mon['has'] = bool(ev.has)


def version_api(w, rep):
    f = w.api('RaknetListener', 'get_peer_raknet_version')
    u = w.unit([VerMon(w, None, None)], part=False)
    a = w.start(u, f)
    from sa.models import deref
    addr = deref(u.E, u.st, a[1])
    n = 0
    for st, v in u.call(f, a, u.st):
        if w.outcome(v) != 'Ok':
            continue
        n += 1
        x = w.payload(v)
        k = map_key(x)
        key = 'get_peer_raknet_version returns the version recorded for that peer'
        if k is not None:
            t = str(nm(('tostr', vkey(addr))))
            (rep.ok if t in str(k) or k == addr else rep.und)(key, 'returns that of %s' % str(k)[:120])
        elif is_const(x):
            rep.check(key, st.mon.get('has') is not True, 'returns %s although one may be recorded' % x)
            rep.check('an unknown peer is reported with a supported version', x.c in VERSIONS, 'reports %s' % x)
        else:
            rep.und(key, str(x)[:120])
    rep.floor('get_peer_raknet_version: answers', n, 1)


def P07(rep):
    run(rep, 'P07')


def P17(rep):
    run(rep, 'P17')


def P18(rep):
    run(rep, 'P18')


def P27(rep):
    run(rep, 'P27')
