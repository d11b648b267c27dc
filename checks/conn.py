"""The public API of a connection and of a listener, one call at a time.

The queues of the reliability layer, the packet encoders and the packet decoders are black boxes here (arbitrary result,
arbitrary effect on the queue they are given); what they do is decided by arq.py, sendq.py and codec.py."""
from sa.unit import sig, find_fns
from sa.terms import *
from sa import terms as tm
from sa import eqv, witness
from .arq import Q, Lost, tri, is_ok
from .codec import discover, result_of
from .flow import where, local_name, callees
from .sendq import has_phi


def rooted(x, memo={}):
    """the value depends on the function's arguments only"""
    if isinstance(x, Lin):
        return all(rooted(a) for a, _ in x.t)
    if isinstance(x, Atom):
        return all(rooted(y) for y in x.key[1:] if isinstance(y, (Lin, Atom, Nm)))
    if isinstance(x, Nm):
        while len(x.key) == 2 and isinstance(x.key[0], Nm):
            x = x.key[0]
        return x.key[0] == 'unit'
    return True


def inputs(st):
    """paths that know different things about the arguments stay apart"""
    r = [('i', a.id, lo, hi) for a, (lo, hi) in st.ivl.items() if rooted(a) and not has_phi(a)]
    r += [('b', a.id, b) for a, b in st.bools.items() if isinstance(a, Atom) and rooted(a) and not has_phi(a)]
    r += [('n', str(l)) for l in st.nes if rooted(l) and not has_phi(l)]
    return tuple(sorted(r, key=str))


class World(Q):
    SUM = [('SendQ', 'insert'), ('SendQ', 'flush'), ('SendQ', 'ack'), ('RecvQ', 'insert'), ('RecvQ', 'flush'), ('ACKSet', 'get_ack'),
           ('FrameSetPacket', 'serialize')]

    def __init__(self):
        super().__init__()
        P = self.P
        self.W, self.R = discover(P)
        self.enc = {f.id: k for k, l in self.W.items() for f, _ in l}
        self.dec = {f.id: k for k, l in self.R.items() for f, _ in l}
        self.serialize = self.method('FrameSetPacket', 'serialize')
        self.frameset = [f for f in find_fns(P) if f.p.endswith('::FrameVec::new')]
        self.sendq_ty = self.self_ty(self.send_insert)
        self.recvq_ty = self.self_ty(self.recv_insert)
        # other methods of the queues that modify them (acknowledgement, negative acknowledgement, collecting them)
        self.qmeth = {}
        for f in find_fns(P):
            if '{closure' in f.p or f.d.get('cor'):
                continue
            a, r = sig(P, f)
            if a and P.types[a[0]]['k'] == 'ref' and P.types[a[0]]['m'] and P.types[a[0]]['t'] in (self.sendq_ty, self.recvq_ty):
                self.qmeth[f.id] = f
        self.acklists = set(self.reach(self.ack_get))
        self.ranges = [i for i, t in enumerate(P.types) if P.ts(i).endswith('Vec<(u32, u32)>')]
        self.black = set(self.enc) | set(self.dec) | set(self.qmeth) | {self.serialize.id} | set(f.id for f in self.frameset)

    def reach(self, g):
        """the queue methods that call g"""
        by = {f.id: f for f in find_fns(self.P)}
        ids = {g.id}
        while True:
            n = len(ids)
            for f in by.values():
                if f.id not in ids and any(t.get('i') in ids for _, t, _ in callees(self.P, f) if isinstance(t, dict)):
                    ids.add(f.id)
            if len(ids) == n:
                return ids

    def unit(self, monitors=(), part=True):
        u = self.new(monitors)
        u.E.summ = set(self.black)
        if part:
            u.E.part = inputs
        return u

    def api(self, ty, name):
        return self.method(ty, name)

    def start(self, u, f):
        a = sig(self.P, f)[0]
        args = [u.opaque(x, ('a', i), u.st) for i, x in enumerate(a)]
        u.st.mon['keep'] = tuple(args)
        return args

    def outcome(self, v):
        """'Ok', the name of the error variant, 'passed on' for an error of a black box, None"""
        P = self.P
        if not (isinstance(v, tuple) and v[0] == 'E' and P.types[v[1]]['p'].endswith('result::Result') and not v[2].t):
            return None
        if v[2].c == 0:
            return 'Ok'
        e = dict(v[3]).get(1)
        if not e:
            return None
        e = e[0]
        if isinstance(e, tuple) and e[0] == 'E' and not e[2].t:
            for x in P.types[e[1]]['v']:
                if x['d'] == e[2].c:
                    return x['n']
        if isinstance(e, tuple) and e[0] == 'O':
            return 'passed on'
        return None

    def payload(self, v):
        return dict(v[3])[0][0]

    def ok_of(self, E, st, v):
        """the payload of a result, should it be a success"""
        if isinstance(v, tuple) and v[0] == 'O':
            v = E.expand(st, v)
        if isinstance(v, tuple) and v[0] == 'E':
            p = dict(v[3]).get(0)
            return p[0] if p else None
        return None

    def payload_of(self, E, st, v):
        p = self.ok_of(E, st, v)
        if isinstance(p, tuple) and p[0] == 'O':
            p = E.expand(st, p)
        if isinstance(p, tuple) and p[0] == 'S':
            return {n: x for (n, _), x in zip(self.P.types[p[1]]['v'][0]['f'], p[2])}
        return {}

    def made_by(self, E, v):
        """the black-box call this value is the (unwrapped) result of: (function, argument values)"""
        n = whole(E, v)
        while n is not None:
            if len(n.key) == 2 and isinstance(n.key[0], Nm) and isinstance(n.key[1], tuple):
                s = n.key[1]
                if s[0] == 'call':
                    return E.sumargs[s[1]]
                if s[0] in ('v', 'f'):
                    n = n.key[0]
                    continue
            return None
        return None


def whole(E, v):
    """the name of the object a value is a whole copy of"""
    if isinstance(v, tuple) and v[0] == 'O':
        return v[1]
    if isinstance(v, tuple) and v[0] == 'Q' and not v[2] and len(v[1]) == 1 and v[1][0][0] == 'sub':
        g = v[1][0]
        if is_const(g[2]) and g[2].c == 0 and g[3] is E.len_atom(g[1]):
            return g[1]
    if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0].key[0] == 'o':
        return v.t[0][0].key[1]
    if isinstance(v, tuple) and v[0] == 'b' and v[1].key[0] == 'o':
        return v[1].key[1]
    return None


def under(n, root):
    """n names the object root or something inside it; the steps leading there"""
    steps = []
    while n is not None and n is not root:
        if not (len(n.key) == 2 and isinstance(n.key[0], Nm)):
            return None
        steps.append(n.key[1])
        n = n.key[0]
    return tuple(reversed(steps)) if n is not None else None


def field_of(P, v, root):
    """the index of the field of root a value is a whole copy of"""
    return None


def prim_name(p):
    return p[0][1] if isinstance(p, tuple) and p and isinstance(p[0], tuple) and p[0][0] == 'n' else None


def mine(p):
    """the primitive belongs to the object the method was called on"""
    n = prim_name(p)
    return n is not None and rooted(n)


class Trace:
    """what every monitor here notes: the last answer about being closed, locks of the send queue"""
    def __init__(self, w, rep, key):
        self.w, self.rep, self.key = w, rep, key
        self.n = {}

    def seen(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def mine(self, p):
        return mine(p)

    def event(self, E, st, ev):
        k = ev.kind
        if k == 'is_closed' and self.mine(ev.prim):
            st.mon['closed'] = bool(ev.res)
            if ev.res:
                st.mon['wasclosed'] = True
        elif k == 'close' and self.mine(ev.prim):
            st.mon['closed'] = True
            st.mon['didclose'] = True
        elif k == 'acquired' and self.mine(ev.prim):
            st.mon['wasclosed'] = True
        h = getattr(self, 'on_' + k, None)
        if h:
            h(E, st, ev)

    def head(self, E, st, pt):
        pass

    def arrive(self, E, st, pt, back):
        pass


# ------------------------------------------------------------------ send
class SendApi(Trace):
    def __init__(self, w, rep, key, buf, bufv, rel):
        super().__init__(w, rep, key)
        self.buf, self.bufv, self.rel = buf, bufv, rel

    def on_sum(self, E, st, ev):
        w, rep = self.w, self.rep
        if ev.fn.id == w.send_insert.id:
            self.seen('insert')
            at = 'at %s' % where(E, ev)[1]
            ln = E.seq_len(self.bufv)
            e = can_all(st, p_eq(ln))
            tri(rep, 'send queues a message only if it is not empty', None if e is None else not e, 'an empty message reaches the queue %s' % at)
            b = first(E, st, self.bufv)
            tri(rep, 'send queues a message only if its first byte is 0xfe', eqv.eq_lin(st, b, const(0xfe)), 'a message with first byte in %s reaches the queue %s' % (st.rng(b), at))
            rep.check('send queues a message only after seeing the connection open', st.mon.get('closed') is False, 'no answer "open" precedes the insertion %s' % at)
            vs = [v for v in ev.vals if v is not None]
            rel = [v for v, t in zip(ev.vals, sig(w.P, ev.fn)[0]) if w.P.types[t]['k'] == 'adt']
            tri(rep, 'send queues with the reliability it was given', eqv.eq(E, st, rel[0], self.rel) if rel else None, 'reliability %s %s' % (rel and rel[0], at))
            buf = [v for v in vs if isinstance(v, tuple) and v[0] == 'Q']
            tri(rep, 'send queues the message it was given', eqv.eq(E, st, buf[0], self.bufv) if buf else None, 'queues %s %s' % (buf and str(buf[0])[:200], at))
            st.mon['ins'] = st.mon.get('ins', 0) + 1
            if st.mon['ins'] > 1:
                rep.bad('send queues a message once', 'a second insertion %s' % at)
            else:
                rep.ok('send queues a message once')
        elif ev.fn.id == w.send_flush.id:
            self.seen('flush')
            st.mon['fl'] = (ev.ret, st.mon.get('ins', 0))
        elif ev.fn.id == w.serialize.id:
            p = st.mon.get('pend')
            if p is not None and p[0] == 'raw' and eqv.eq(E, st, ev.vals[0], p[1]) is True:
                st.mon['pend'] = ('ser', ev.ret)

    def on_item(self, E, st, ev):
        fl = st.mon.get('fl')
        if fl is None or not same_list(ev.over, fl[0]):
            return
        self.lost(st, ev, E)
        n = fl[0][1][0][1]
        st.mon['pend'] = ('raw', E.seq_get(st, fl[0], ev.idx, self.w.frame))

    def on_exhaust(self, E, st, ev):
        fl = st.mon.get('fl')
        if fl is None or ev.over is None or not same_list(ev.over, fl[0]):
            return
        self.lost(st, ev, E)
        st.mon['all'] = True

    def on_push(self, E, st, ev):
        if st.mon.get('pend') is not None:
            st.mon['pend'] = None
            st.mon['vague'] = True

    def lost(self, st, ev, E):
        p = st.mon.get('pend')
        if p is not None:
            self.rep.bad('send transmits every datagram the queue releases', 'a released frame is passed over at %s' % where(E, ev)[1])
        else:
            self.rep.ok('send transmits every datagram the queue releases')
        st.mon['pend'] = None

    def on_send(self, E, st, ev):
        v = ev.val
        if not (isinstance(v, tuple) and v[0] == 'T'):
            return
        self.seen('send')
        at = 'at %s' % where(E, ev)[1]
        q = [x for x in v[1] if isinstance(x, tuple) and x[0] == 'Q']
        ad = [x for x in v[1] if is_addr(self.w.P, x)]
        p = st.mon.get('pend')
        if p is not None and q:
            m = self.w.made_by(E, q[0])
            if m and m[0].id == self.w.serialize.id:
                self.rep.check('send transmits a datagram as serialized', p[0] == 'ser' and eqv.eq(E, st, q[0], okv(E, p[1])) is not False, 'transmits something else %s' % at)
            else:
                self.rep.und('send transmits a datagram as serialized', str(q[0])[:200])
        if ad:
            self.rep.check('send addresses datagrams to the peer', field(ad[0]) == self.w.peer_field, 'addressed to %s %s' % (str(ad[0])[:100], at))
        if ev.res:
            st.mon['pend'] = None
        else:
            st.mon['pend'] = None
            st.mon['failed'] = True


def okv(E, v):
    return v


def same_list(over, q):
    return isinstance(over, tuple) and over[0] == 'Q' and isinstance(q, tuple) and q[0] == 'Q' and over[1] and q[1] \
        and over[1][0][0] == 'sub' and q[1][0][0] == 'sub' and over[1][0][1] is q[1][0][1]


def is_addr(P, x):
    return isinstance(x, tuple) and (x[0] == 'O' and P.types[x[2]]['k'] == 'adt' and P.types[x[2]]['p'].endswith('SocketAddr') or x[0] == 'X' and x[1] == 'sa')


def field(v):
    """'self' field index a value is a copy of"""
    n = v[1] if isinstance(v, tuple) and v[0] == 'O' else None
    if n is None and isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][0].key[0] == 'o':
        n = v.t[0][0].key[1]
    if isinstance(n, Nm) and len(n.key) == 2 and isinstance(n.key[1], tuple) and n.key[1][0] == 'f' and rooted(n):
        return n.key[1][1]
    return None


def first(E, st, q):
    return E.seq_get(st, q, const(0), E.u8)


def roles(w):
    """which field of the connection object holds the peer's address, the local one and the version: from its constructors"""
    P = w.P
    for name in ('peer_addr', 'local_addr', 'raknet_version'):
        f = w.api('RaknetSocket', name)
        u = w.unit()
        a = w.start(u, f)
        r = u.call(f, a, u.st)
        k = set(field(w.payload(v)) for s, v in r if w.outcome(v) == 'Ok')
        setattr(w, name.split('_')[0] + '_field', k.pop() if len(k) == 1 else None)


def api(rep):
    rep.rule('Each public method is interpreted once with arbitrary arguments and an arbitrary connection state (queues, encoders and decoders are '
             'black boxes).  Every exit is compared with the contract: which error on which condition, and on success what was queued, transmitted '
             'or handed over.')
    w = World()
    roles(w)
    api_send(w, rep)
    api_recv(w, rep)
    api_flush(w, rep)
    api_accept(w, rep)
    api_getters(w, rep)


def api_send(w, rep):
    P = w.P
    f = w.api('RaknetSocket', 'send')
    u = w.unit()
    args = w.start(u, f)
    tys = sig(P, f)[0]
    bi = [i for i, t in enumerate(tys) if '[u8]' in P.ts(t)][0]
    ri = [i for i, t in enumerate(tys) if P.types[t]['k'] == 'adt'][0]
    bufv = models_deref(u.E, u.st, args[bi])
    m = SendApi(w, rep, 'send', args[bi], bufv, args[ri])
    u.E.monitors = [m]
    for st, v in u.call(f, args, u.st):
        o = w.outcome(v)
        ln = u.E.seq_len(bufv)
        b = first(u.E, st, bufv)
        good = can_all(st, p_ge(addc(ln, -1)), p_eq(sub(b, const(0xfe))))
        bad = None if good is None else not good
        if o == 'Ok':
            rep.check('send succeeds only after queueing the message', st.mon.get('ins') == 1, 'a path returns Ok without queueing')
            fl = st.mon.get('fl')
            if fl is not None and fl[1] == 1 and not st.mon.get('vague'):
                rep.check('send succeeds only after transmitting what the queue released', (st.mon.get('all') or st.rng(u.E.seq_len(fl[0]))[1] == 0) and not st.mon.get('failed'),
                          'a path returns Ok with released datagrams untransmitted')
            elif fl is None:
                rep.bad('send succeeds only after transmitting what the queue released', 'a path returns Ok without asking the queue for datagrams after queueing')
        elif o == 'PacketHeaderError':
            tri(rep, 'PacketHeaderError is returned for a wrong header only', bad, 'returned although the message begins with 0xfe')
        elif o == 'ConnectionClosed':
            rep.check('ConnectionClosed is returned for a closed connection only', st.mon.get('closed') is True or st.mon.get('failed'), 'returned on a path that saw neither')
            rep.check('a closed connection queues nothing', st.mon.get('failed') or not st.mon.get('ins'), 'queued before refusing')
        elif o == 'passed on':
            e = w.made_by(u.E, dict(v[3])[1][0])
            rep.check('other errors of send are those of the queue', e is not None and e[0].id == w.send_insert.id, 'error made by %s' % (e and e[0].p))
        elif o is not None:
            rep.bad('send returns no other error', 'returns %s' % o)
        else:
            rep.und('send outcome', str(v)[:200])
    for k in ('insert', 'flush', 'send'):
        rep.floor('send: %s sites' % k, m.n.get(k, 0), 1)


class Taker(Trace):
    def took(self, E, st, ev, key):
        """what was taken out of the channel so far: the last attempts, the ones that yielded nothing only once"""
        got = st.mon.get('got', ())
        if ev.val is not None and any(g[0] is not None for g in got):
            self.rep.bad(key, 'a path takes a second one at %s' % where(E, ev)[1])
            got = ()
        if ev.val is not None:
            self.rep.ok(key)
        st.mon['got'] = tuple(g for g in got if g != (ev.val,)) + ((ev.val,),)


class RecvApi(Taker):
    def on_recv(self, E, st, ev):
        if 'u8' not in str(ev.chan):
            return
        self.seen('recv')
        self.took(E, st, ev, 'recv takes one message per call')

    def on_await(self, E, st, ev):
        if ev.fut == 'recv':
            self.rep.check('recv waits without a time limit', not ev.bounded, 'at %s' % where(E, ev)[1])


def api_recv(w, rep):
    f = w.api('RaknetSocket', 'recv')
    m = RecvApi(w, rep, 'recv')
    u = w.unit([m])
    for st, v in u.call(f, w.start(u, f), u.st):
        o = w.outcome(v)
        got = st.mon.get('got', ())
        if o == 'Ok':
            tri(rep, 'recv returns the next received message unchanged', eqv.eq(u.E, st, w.payload(v), got[-1][0]) if got and got[-1][0] is not None else False,
                'returns %s' % str(w.payload(v))[:200])
        elif o == 'ConnectionClosed':
            rep.check('recv reports a closed connection only when it is closed and nothing is left', got and got[-1][0] is None and st.mon.get('closed') is True,
                      'returned after receiving %s, closed: %s' % (len(got), st.mon.get('closed')))
        elif o == 'SocketError':
            rep.check('recv reports a lost connection only when nothing is left', got and got[-1][0] is None, 'returned although a message may be waiting')
        elif o is not None:
            rep.bad('recv returns no other error', 'returns %s' % o)
        else:
            rep.und('recv outcome', str(v)[:200])
        rep.check('recv drops no message it took', o == 'Ok' or all(g[0] is None for g in got), 'a path takes a message and returns %s' % o)
    rep.floor('recv: receive sites', m.n.get('recv', 0), 1)


class FlushApi(Trace):
    def empty(self, E, st, loc):
        v = E.get(st, loc, ())
        if isinstance(v, tuple) and v[0] == 'O':
            v = E.expand(st, v)
        r = []
        for proj, ty in self.w.leaves(self.w.sendq_ty):
            if self.w.P.types[ty]['k'] == 'adt' and self.w.P.ts(ty).split('<')[0].endswith('Vec'):
                x = v
                for s in proj:
                    x = E.get_step(st, x, s)
                r.append(E.seq_len(x))
        return r

    def on_unlock(self, E, st, ev):
        if self.w.P.types[self.w.sendq_ty]['p'].endswith(str(ev.lock)):
            self.seen('look')
            ls = self.empty(E, st, ev.content)
            st.mon['empty'] = all(st.rng(l)[1] == 0 for l in ls) and len(ls) >= 2

    def on_await(self, E, st, ev):
        if ev.fut != 'lock':
            st.mon.pop('empty', None)
            st.mon.pop('closed', None)


def api_flush(w, rep):
    f = w.api('RaknetSocket', 'flush')
    m = FlushApi(w, rep, 'flush')
    u = w.unit([m], part=False)
    n = 0
    for st, v in u.call(f, w.start(u, f), u.st):
        o = w.outcome(v)
        if o == 'Ok':
            n += 1
            rep.check('flush succeeds only when nothing is queued or unacknowledged', st.mon.get('empty') is True,
                      'a path returns Ok although the send queue may hold queued or unacknowledged packets')
            rep.check('flush succeeds only on an open connection', st.mon.get('closed') is False, 'a path returns Ok without seeing the connection open since it last waited')
        elif o == 'ConnectionClosed':
            rep.check('flush reports a closed connection only when it is closed', st.mon.get('closed') is True, 'returned on a path that did not see it closed')
        elif o is not None:
            rep.bad('flush returns no other error', 'returns %s' % o)
        else:
            rep.und('flush outcome', str(v)[:200])
    rep.floor('flush: success exits', n, 1)
    rep.floor('flush: looks at the queue', m.n.get('look', 0), 1)


class AcceptApi(Taker):
    def on_recv(self, E, st, ev):
        if 'RaknetSocket' in str(ev.chan):
            self.seen('recv')
            self.took(E, st, ev, 'accept takes one connection per call')


def api_accept(w, rep):
    f = w.api('RaknetListener', 'accept')
    m = AcceptApi(w, rep, 'accept')
    u = w.unit([m])
    args = w.start(u, f)
    # the listening flag: the only boolean of the listener
    lt = w.self_ty(f)
    bools = [(i, ft) for i, (_, ft) in enumerate(w.P.types[lt]['v'][0]['f']) if w.P.types[ft]['k'] == 'bool']
    flag = u.E.get(u.st, args[0][1], args[0][2] + (('f', bools[0][0], bools[0][1]),)) if len(bools) == 1 else None
    for st, v in u.call(f, args, u.st):
        o = w.outcome(v)
        got = st.mon.get('got', ())
        if o == 'Ok':
            tri(rep, 'accept returns the next established connection', eqv.eq(u.E, st, w.payload(v), got[-1][0]) if got and got[-1][0] is not None else False, 'returns %s' % str(w.payload(v))[:200])
            if flag is not None:
                rep.check('accept succeeds on a listening listener only', st.decide(flag) is True, 'a path returns a connection without testing that listen was called')
        elif o == 'NotListen':
            ok = st.mon.get('wasclosed') or got and got[-1][0] is None or flag is None or st.decide(flag) is not True
            rep.check('accept refuses only a listener that is not listening or closed', ok, 'a path refuses although the listener listens')
            rep.check('accept drops no connection it took', all(g[0] is None for g in got), 'a path takes a connection and refuses')
        elif o is not None:
            rep.bad('accept returns no other error', 'returns %s' % o)
        else:
            rep.und('accept outcome', str(v)[:200])
    rep.floor('accept: receive sites', m.n.get('recv', 0), 1)


def api_getters(w, rep):
    c = Conn(w, ('RaknetSocket', 'from'))
    c.check_fields(rep)
    c = Conn(w, ('RaknetSocket', 'connect_with_version'))
    c.check_fields(rep)


# ------------------------------------------------------------------ a connection and its tasks
class Spawns:
    def __init__(self):
        self.v = []
        self.locked = []
        self.waited = []        # what the constructor itself waits to be notified of
        self.told = []

    def event(self, E, st, ev):
        if ev.kind == 'await' and ev.fut == 'notified' and ev.prim:
            self.waited.append(ev.prim[0])
        if ev.kind == 'notify':
            self.told.append((ev.prim[0] if ev.prim else None, ev.how, ev.c.ctx.fns))
        if ev.kind == 'newlock':
            self.locked.append(ev.val)
        if ev.kind == 'spawn':
            st.mon['spawned'] = st.mon.get('spawned', ()) + (ev.val[1],)
            if not any(x[0][1] == ev.val[1] for x in self.v):
                self.v.append((ev.val, st.copy()))


class Conn:
    """a constructor analysed from arbitrary arguments, and the tasks it spawns with the values it gives them"""

    def __init__(self, w, ctor):
        self.w = w
        self.name = ctor[1]
        P = w.P
        m = Spawns()
        u = self.u = w.unit([m], part=False)
        self.E = u.E
        f = self.f = w.api(*ctor)
        self.args = w.start(u, f)
        self.argty = sig(P, f)[0]
        self.made = []
        self.exits = u.call(f, self.args, u.st)
        for st, v in self.exits:
            if isinstance(v, tuple) and v[0] == 'E' and w.outcome(v) == 'Ok':
                v = w.payload(v)
            if isinstance(v, tuple) and v[0] == 'S':
                self.made.append((st, v))
        self.tasks = m.v
        self.spawns = m
        self.locked = m.locked
        if not self.made:
            raise Lost('no object made by %s' % ctor[1])
        self.obj = self.made[0][1]
        self.fnames = [n for n, _ in P.types[self.obj[1]]['v'][0]['f']]
        self.ftys = [t for _, t in P.types[self.obj[1]]['v'][0]['f']]
        self.addr = None
        for i, t in enumerate(self.argty):
            if P.ts(t).endswith('SocketAddr'):
                self.addr = models_deref(self.E, u.st, self.args[i]) if P.types[t]['k'] == 'ref' else self.args[i]
        self.version = [a for a, t in zip(self.args, self.argty) if P.ts(t) == 'u8']
        self.sems = set(loc for loc, t in self.arcs() if 'Semaphore' in t)

    def arcs(self):
        """(location, type) of what the object shares"""
        for x, t in zip(self.obj[2], self.ftys):
            if isinstance(x, tuple) and x[0] == 'A':
                yield x[1], self.w.P.ts(t)

    def shared(self, word):
        return [loc for loc, t in self.arcs() if word in t]

    def run(self, mon, only=None):
        """[(task type, state, value)] of every exit of every task"""
        out = []
        self.E.monitors = [mon]
        for val, st in self.tasks:
            p = self.w.P.types[val[1]].get('dp') or self.w.P.types[val[1]]['p']
            self.E.fmemo.clear()
            st = st.copy()
            st.mon.clear()
            mon.task = local_name(p).replace('::{closure#0}', '')
            mon.begin(val)
            if only and only not in mon.task:
                continue
            for s, v in self.w.run.run_cor(self.E, val[1], val, st):
                out.append((mon.task, s, v))
                mon.exit(self.E, s)
            mon.end()
        return out

    def is_peer(self, st, a):
        return eqv.eq(self.E, st, a, self.addr)

    def check_fields(self, rep):
        w = self.w
        for st, o in self.made:
            for name, want, what in (('peer', self.addr, "the peer's address"), ('raknet', self.version and self.version[0], 'the version it was given')):
                k = getattr(w, name + '_field')
                if k is None:
                    rep.und('%s getter' % name, 'does not return one field')
                    continue
                tri(rep, '%s: the connection reports %s' % (self.name, what), eqv.eq(self.E, st, o[2][k], want) if want is not None else None,
                    'the field is %s' % str(o[2][k])[:120])
            k = w.local_field
            if k is not None:
                n = whole(self.E, o[2][k])
                t = str(n)
                rep.check('%s: the connection reports its own address' % self.name, n is not None and n.key[0] == 'localaddr', 'the field is %s' % t[:120])


def can_all(st, *ps):
    """can the conditions hold on this path: False (proved not), True (an assignment exists), None"""
    s = st.copy()
    for p in ps:
        if p is False or p is not True and not s.assume(p):
            return False
    return True if witness.feasible(s) else None


def can(st, x, c):
    return can_all(st, p_eq(sub(x, const(c) if isinstance(c, int) else c)))


def models_deref(E, st, v):
    from sa.models import deref
    return deref(E, st, v)
