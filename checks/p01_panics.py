"""P01: nothing that arrives, and no legal API call, makes the library panic."""
from sa.driver import Run


def run(rep):
    r = Run(rounds=3)
    E = r.run_all()
    rep.rule('Abstract interpretation of every public function and every spawned task from an arbitrary state, with inductively '
             'checked value invariants of all shared structures; every arithmetic overflow/bounds check, slice, index, unwrap, expect and '
             'explicit panic that is reached is an obligation: its failing edge must be infeasible.')
    rep.assume += EXEMPT
    for (fn, bb, kind), o in sorted(E.obl.items()):
        name = fn.replace('rust_raknet::', '')
        key = '%s %s' % (name, kind)
        if o['bad']:
            rep.bad(key, '%s at %s may fail: %s [reached from %s via %s]' % (kind, o['span'], o['detail'], o['root'], o['stack']))
        elif o['und']:
            rep.und(key, o['detail'])
        else:
            rep.ok(key)
    for k, v in E.unknown.items():
        rep.und('unmodelled call %s' % k, v['why'])
    rep.floor('panic obligations', len(E.obl), 100)
    rep.floor('functions analysed', len(set(k[0] for k in E.obl)), 30)
    rep.floor('spawned tasks analysed', len(E.spawns), 4)
    rep.count('analysis rounds until the invariants were inductive', r.nrounds)
    rep.count('exempted counter increments and runtime-internal panics', E.stats.get('exempt', 0))
    rep.samples = ['%s bb%s %s (%d paths)' % (k[0], k[1], k[2], o['n']) for k, o in list(sorted(E.obl.items()))[:12]]


EXEMPT = [
    'increments by a constant of counters of 32 bits or more that no received value feeds do not wrap in a session',
    'panics inside code expanded from tokio macros (select/join state machines) are not reachable',
    'UdpSocket::local_addr() of a bound socket succeeds; set_nonblocking and constant address literals succeed',
    'the system clock is after 1970 and below 2^60 ms',
    'a listener that has not been closed owns its socket',
]
