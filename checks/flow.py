"""Whole-crate rules over events: logging, unsafe code, blocking calls, loss simulation."""
from sa.driver import Run
from sa.unit import Unit, sig, find_fns
from sa.terms import *
from sa.interp import Abort, short

PREFIX = {'debug': 1, 'error': 2, 'info': 4}


def local_name(p):
    return p.replace('rust_raknet::', '')


def where(E, ev):
    fn, bb = E.site(ev.c.ctx, ev.c.bb)
    return local_name(fn.p), E.site_span(fn, bb)


def text_of(v):
    """the constant text a formatted message starts with"""
    if not (isinstance(v, tuple) and v[0] == 'X' and v[1] == 'fmt'):
        return None
    q = v[2][1][0] if v[2][1] else None
    if not (isinstance(q, tuple) and q[0] == 'Q'):
        return None
    r = []
    for g in q[1]:
        if g[0] != 'one':
            break
        b = g[1]
        b = b.c if isinstance(b, Lin) and not b.t else b
        if not isinstance(b, int):
            break
        r.append(chr(b) if 32 <= b < 127 else ' ')
    return ''.join(r).strip()


class LogMon:
    """a message may be printed only under a test of its own class's bit of the log switch"""
    def __init__(self, rep):
        self.rep = rep
        self.sites = {}
        self.flag = None
        self.stores = []
        self.quiet = set()

    def event(self, E, st, ev):
        k = ev.kind
        if k == 'aload':
            if ev.prim and ev.prim[0] and ev.prim[0][0] == 's':
                st.mon['log'] = (str(ev.prim[0][1]), ev.val)
            return
        if k == 'astore' and ev.prim and ev.prim[0] and ev.prim[0][0] == 's':
            self.stores.append((str(ev.prim[0][1]), ev.val, where(E, ev)))
        if k == 'print':
            self.judge(E, st, ev)
        if k not in ('now', 'alloc') and 'log' in st.mon:
            del st.mon['log']

    def judge(self, E, st, ev):
        w = where(E, ev)
        txt = text_of(ev.val)
        cls = (txt or '').split(' ')[0]
        key = '%s prints a message (%s)' % (w[0], cls or 'text')
        self.sites.setdefault((w, cls), 0)
        self.sites[(w, cls)] += 1
        lg = st.mon.get('log')
        if lg is None:
            self.rep.bad(key, 'at %s: printed without consulting the log switch' % w[1])
            return
        bit = PREFIX.get(cls)
        if bit is None:
            self.rep.und(key, 'message class not recognised: %r' % txt)
            return
        v = lg[1]
        t = E.bin_vals(st, 'BitAnd', v, const(bit), E.P._tid['u8'], E.P._tid['u8']) if isinstance(v, Lin) else None
        d = st.decide(p_ne(t)) if isinstance(t, Lin) else None
        if d is True:
            self.rep.ok(key)
        else:
            self.rep.bad(key, 'at %s: reached while bit %d of the log switch may be clear' % (w[1], bit))


def logging(rep):
    rep.rule('On every path to a print the switch static was loaded, and the path condition implies that the bit of the printed '
             'message class is set; the switch starts at 0 and is stored only by the public setter, with its argument.')
    mons = []

    def mk():
        m = LogMon(rep)
        mons.append(m)
        return m
    r = Run(rounds=1, monitors=[mk])
    E = r.run_all()
    m = mons[-1]
    rep.floor('print sites', len(m.sites), 20)
    rep.floor('message classes', len(set(c for _, c in m.sites)), 3)
    stat = r.P.d.get('statics', []) if hasattr(r.P, 'd') else []
    names = set(n for n, _, _ in m.stores)
    rep.check('the switch is set by exactly one function', len(set(w[0] for _, _, w in m.stores)) == 1, str([w for _, _, w in m.stores]))
    for n, v, w in m.stores:
        t = str(v)
        rep.check('%s stores its argument' % w[0], isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and t.startswith('arg/'),
                  'stores %s at %s' % (t, w[1]))
    sw = [s for s in stat if 'Atomic' in s[1]]
    rep.floor('switch statics', len(sw), 1)
    for s in sw:
        rep.check('%s is initially off' % s[0], not any(s[2]), 'initial bytes %s' % s[2])


def unsafe(rep):
    rep.rule('No body of the crate contains an unsafe block, unsafe function, unsafe impl, mutable static or foreign item (HIR of every body).')
    r = Run(rounds=1)
    P = r.P
    fs = P.d['files']
    n = len(find_fns(P))
    for k, f, l, d in P.d['unsafes']:
        rep.bad('%s contains unsafe code' % local_name(d), '%s in %s at %s:%s' % (k, d, fs[f] if isinstance(f, int) else f, l))
    for f in find_fns(P):
        rep.ok('%s is safe' % local_name(f.p))
    rep.floor('bodies inspected', n, 100)


BLOCK = ['std::thread::', 'std::net::', 'std::fs::', 'std::process::', 'std::sync::mpsc', 'std::io::stdin', 'std::io::Read',
         'std::sync::poison::condvar', 'std::sync::barrier', 'std::sync::Condvar', 'std::sync::Barrier', 'std::os::',
         'std::io::BufRead', 'core::hint::spin_loop', 'std::thread']
BLOCKN = ['::blocking_lock', '::blocking_send', '::blocking_recv', '::blocking_read', '::blocking_write', '::block_on', '::block_in_place',
          '::park', '::blocking_lock_owned', '::acquire_blocking']
ALLOWED = ['std::net::ip_addr', 'std::net::socket_addr', 'core::net', 'std::net::udp::UdpSocket::set_nonblocking', 'std::net::UdpSocket::set_nonblocking',
           'std::thread::local', 'std::thread::local::', 'std::net::SocketAddr', 'std::net::Ipv', 'std::net::IpAddr', 'std::thread::LocalKey']


def callees(P, f):
    for bb, blk in enumerate(f.blocks):
        t = blk['t'] if blk else None
        if t and t[0] == 'call':
            yield bb, t[1], t


class GuardMon:
    """std guards may not be alive where a task can be suspended"""
    def __init__(self, rep):
        self.rep = rep
        self.n = 0
        self.std = 0
        self.gids = set()

    def event(self, E, st, ev):
        if ev.kind == 'lock' and ev.c.name.startswith('std::'):
            self.std += 1
            self.gids.add(ev.gid)
        elif ev.kind == 'await':
            self.n += 1
            w = where(E, ev)
            held = [x for x in st.locks if x[2] in self.gids]
            self.rep.check('%s suspends (%s) without a std lock' % (w[0], ev.fut), not held, 'a std lock guard is alive at %s' % w[1])


def blocking(rep):
    rep.rule('No function of the crate calls a blocking operation of std (thread, net I/O, fs, process, condvar, channel) or a blocking tokio '
             'entry point; the callee of every call terminator of every body is resolved and compared.')
    mons = []

    def mk():
        mons.append(GuardMon(rep))
        return mons[-1]
    r = Run(rounds=1, monitors=[mk])
    r.run_all()
    rep.floor('suspension points reached', mons[-1].n, 30)
    P = r.P
    n = 0
    for f in find_fns(P):
        for bb, obj, t in callees(P, f):
            p = obj.get('rp') or obj.get('p') or ''
            n += 1
            hit = (any(p.startswith(b) or ('<' + b) in p for b in BLOCK) or any(p.endswith(b) for b in BLOCKN)) \
                and not any(a in p for a in ALLOWED)
            key = '%s calls %s' % (local_name(f.p), p)
            if hit:
                rep.bad(key, 'blocking call in block %s' % bb)
            else:
                rep.ok(key)
    rep.floor('resolved call sites', n, 500)


class SendMon:
    def event(self, E, st, ev):
        if ev.kind == 'random':
            st.mon['rnd'] = st.mon.get('rnd', ()) + ((ev.val, ev.d.get('lo'), ev.d.get('hi')),)
        elif ev.kind == 'sendto':
            st.mon['sent'] = st.mon.get('sent', ()) + ((ev.data, ev.addr),)


class LossCalls:
    """what the sender is told about loss comes from the connection's own two settings"""
    def __init__(self, rep, ids):
        self.rep, self.ids = rep, ids
        self.n = 0
        self.stores = []

    def event(self, E, st, ev):
        P = E.P
        if ev.kind == 'call' and ev.fn.id in self.ids:
            self.n += 1
            w = where(E, ev)
            en, rate = self.ids[ev.fn.id]
            for i, what in ((en, 'bool'), (rate, 'u8')):
                v = ev.args[i]
                self.source(E, '%s passes the %s setting on' % (w[0], 'enable' if what == 'bool' else 'rate'), v, what, w[1])
        elif ev.kind == 'send' and ev.res and isinstance(ev.val, tuple) and ev.val[0] == 'T':
            w = where(E, ev)
            for v in ev.val[1]:
                if is_bool(v):
                    self.source(E, '%s queues the enable setting' % w[0], v, 'bool', w[1])
        elif ev.kind == 'astore' and ev.ty in ('bool',):
            self.stores.append((where(E, ev), ev.val))
        elif ev.kind == 'newatomic' and ev.ty == 'bool':
            w = where(E, ev)
            self.rep.check('%s creates the enable setting off' % w[0], ev.val is False, 'starts as %s at %s' % (ev.val, w[1]))

    def source(self, E, key, v, what, sp):
        if v is False or (isinstance(v, Lin) and not v.t and False):
            self.rep.ok(key)
            return
        a = None
        if isinstance(v, tuple) and v[0] == 'b':
            a = v[1]
        elif isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
            a = v.t[0][0]
        s = str(a)
        if a is None:
            self.rep.bad(key, 'the value is %s at %s' % (v, sp))
        elif '/load' in s or 'recv' in s or '/chan' in s or s.startswith('arg/') or 'phi' in s:
            self.rep.ok(key)
        else:
            self.rep.und(key, 'provenance %s' % s)


def is_bool(v):
    return isinstance(v, bool) or (isinstance(v, tuple) and v[0] in ('b', 'nb'))


def loss(rep):
    rep.rule('For the function that hands a datagram to the UDP socket under the loss settings, on every exit either the whole buffer was sent '
             'once to the target, or the path implies that loss is enabled and a draw from 0..=10 exceeded the configured stage; on paths that '
             'send while enabled the draw did not exceed it.  Callers pass the settings of the connection; they start off and only the public '
             'setter turns them on.')
    r = Run(rounds=1)
    P = r.P
    from sa.state import State
    roles = {}
    for f in find_fns(P):
        a, rt = sig(P, f)
        ts = [P.ts(x) for x in a]
        if 'bool' in ts and 'u8' in ts and any('UdpSocket' in x for x in ts) and any('SocketAddr' in x for x in ts):
            roles[f.id] = (ts.index('bool'), ts.index('u8'))
            u = Unit(r, [SendMon()])
            st = State()
            args = [u.opaque(x, ('a', i), st) for i, x in enumerate(a)]
            en, rate = args[ts.index('bool')], args[ts.index('u8')]
            name = local_name(f.p)
            for s, v in u.call(f, args, st):
                sent, rnd = s.mon.get('sent', ()), s.mon.get('rnd', ())
                on = s.decide(en)
                lost = None
                if rnd:
                    x, lo, hi = rnd[-1]
                    lost = s.decide(p_ge(addc(sub(x, rate), -1))) if isinstance(x, Lin) else None
                    ok = isinstance(lo, Lin) and isinstance(hi, Lin) and lo.c == 0 and hi.c == 11 and not lo.t and not hi.t
                    rep.check('%s draws from 0..=10' % name, ok, 'draws from %s..%s' % (lo, hi))
                if not sent:
                    rep.check('%s suppresses a datagram only by simulated loss' % name, on is True and lost is True,
                              'a path without send: enabled=%s, draw exceeds stage=%s' % (on, lost))
                else:
                    rep.check('%s sends a datagram once' % name, len(sent) == 1, '%d sends' % len(sent))
                    if on is not False:
                        rep.check('%s sends while loss is enabled only if the draw allows it' % name, lost is False,
                                  'draw exceeds stage=%s' % lost)
                    d, ad = sent[0]
                    t = str(ad)
                    rep.check('%s sends to its target' % name, 'unit/(a,%d)' % [i for i, x in enumerate(ts) if 'SocketAddr' in x][0] in t, t[:200])
                    bi = [i for i, x in enumerate(ts) if '[u8]' in x or 'Vec<u8>' in x]
                    if bi and isinstance(d, tuple) and d[0] == 'Q':
                        whole = len(d[1]) == 1 and d[1][0][0] == 'sub' and not d[1][0][2].t and d[1][0][2].c == 0 \
                            and 'unit/(a,%d)' % bi[0] in str(d[1][0][1]) and d[1][0][3] is u.E.len_atom(d[1][0][1])
                        rep.check('%s sends the whole buffer' % name, whole, str(d)[:300])
    rep.floor('sending functions under the loss settings', len(roles), 1)
    mons = []

    def mk():
        mons.append(LossCalls(rep, roles))
        return mons[-1]
    r.mk_monitors = [mk]
    r.watch = set(roles)
    r.run_all()
    m = mons[-1]
    rep.floor('calls of the sending function', m.n, 4)
    fns = set(w[0] for w, v in m.stores)
    for w, v in m.stores:
        rep.check('%s turns loss simulation on' % w[0], 'set_loss_rate' in w[0] and v is True, 'stores %s at %s' % (v, w[1]))
    rep.floor('stores of the enable setting', len(m.stores), 1)
