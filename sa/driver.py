"""Building the MIR dump and running the interpreter over every root of the crate."""
import os, subprocess, sys, time, json, hashlib, shutil
from . import terms as tm
from .terms import *
from .mir import Prog
from .state import State
from .interp import Engine, Ctx, U, UNIT, short, Abort
from . import models
from . import interp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RNV_REPO', '/repo')
BUILD = os.environ.get('RNV_BUILD', os.path.join(ROOT, 'build'))


THR = [1, 255, 1500, 12000, 65535, (1 << 24) - 1, 1 << 24, (1 << 32) - 1, 1 << 60, (1 << 63) - 1]

LTHR = [0, -1, -(1 << 31), -(1 << 63)]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_dump(out=None):
    """compile the exporter if needed, then export the MIR of /repo's current tree"""
    os.makedirs(BUILD, exist_ok=True)
    drv = os.path.join(BUILD, 'rnv-driver')
    srcs = [os.path.join(ROOT, 'driver/src', f) for f in ('main.rs', 'json.rs', 'dump.rs')]
    if not os.path.exists(drv) or any(os.path.getmtime(s) > os.path.getmtime(drv) for s in srcs):
        r = sh('bash %s/driver/build.sh %s' % (ROOT, BUILD), timeout=400)
        if r.returncode != 0:
            print(r.stdout[-3000:])
            raise SystemExit(2)
    out = out or os.path.join(BUILD, 'dump.json')
    if os.path.exists(out):
        os.remove(out)
    sysroot = sh('rustc +nightly --print sysroot').stdout.strip()
    env = dict(os.environ)
    env.update({'LD_LIBRARY_PATH': sysroot + '/lib', 'RNV_OUT': out, 'RUSTC_WORKSPACE_WRAPPER': drv,
                'CARGO_TARGET_DIR': os.path.join(BUILD, 'target'), 'CARGO_INCREMENTAL': '0'})
    # force the crate itself to be re-checked: drop its fingerprints, keep the dependencies
    for sub in ('target/debug/.fingerprint', 'target/debug/build', 'target/debug/incremental'):
        fp = os.path.join(BUILD, sub)
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith('rust-raknet') or d.startswith('rust_raknet'):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '--manifest-path', REPO + '/Cargo.toml'],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0 or not os.path.exists(out):
        print(r.stdout[-3000:])
        print('cannot export the MIR of', REPO)
        raise SystemExit(2)
    return out


class Run:
    """one abstract execution of the whole crate"""

    def __init__(self, dump=None, monitors=(), rounds=3, verbose=False, only=None, hints=None):
        self.P = Prog(dump or build_dump())
        self.mk_monitors = monitors
        self.rounds = rounds
        self.verbose = verbose
        self.only = only
        self.hints = hints
        self.assumed = {}
        self.assume_open_listener()

    def assume_open_listener(self):
        """stated assumption: a listener that has not been closed owns its UDP socket (only close() gives it up)"""
        for t in self.P.types:
            if t['k'] == 'adt' and t.get('l') and t.get('v') and len(t['v']) == 1 and t['p'].endswith('Listener'):
                for i, f in enumerate(t['v'][0]['f']):
                    ft = self.P.types[f[1]]
                    if ft['k'] == 'adt' and ft['p'].endswith('option::Option') and 'UdpSocket' in self.P.ts(f[1]):
                        self.assumed[(t['p'], 'f', i, 'discr')] = ('i', 1, 1)

    def engine(self):
        E = Engine(self.P, models.M)
        E.watch = set(getattr(self, 'watch', ()))
        return E

    def roots(self):
        P = self.P
        r = []
        for f in P.fns:
            if f.blocks is None or not f.local:
                continue
            d = f.d
            if d.get('cor'):
                continue
            if d.get('exp') and '{closure' not in f.p:
                r.append(f)
        return r

    def root_args(self, E, st, f, tag=None):
        args = []
        for i in range(f.argc):
            ty = f.locals[i + 1][0]
            n = nm(('arg', tag or f.p, i))
            args.append(E.mk_opaque(n, ty, st))
        return args

    def run_root(self, E, f, args=None, st=None, complete=True):
        st = st or State()
        E.root = f.p
        if args is None:
            args = self.root_args(E, st, f)
        ctx = Ctx(None, None, f)
        res = E.exec_fn(ctx, args, st)
        out = []
        rty = f.locals[0][0]
        t = self.P.types[rty]
        if complete and t['k'] == 'coroutine':
            for s, v in res:
                out.extend(self.run_cor(E, rty, v, s))
        else:
            out = res
        for s, v in out:
            oty = rty
            E.record(s, v, None, None if t['k'] == 'coroutine' else rty, set())
            for a in args:
                if isinstance(a, tuple) and a[0] == 'R':
                    E.publish(s, a[1])
        return out

    def run_cor(self, E, ty, v, st):
        fn = models.coroutine_fn(E, ty)
        if fn is None:
            raise Abort('no body for coroutine %s' % self.P.ts(ty))
        if v[0] == 'O':
            v = E.expand(st, v)
        ctx = Ctx(None, None, fn)
        return E.exec_fn(ctx, [v, UNIT], st)

    def run_all(self):
        t0 = time.time()
        tm.reset()
        inv, invw, grown = dict(getattr(self, "inv0", {})), set(), {}
        rd = -1
        if self.hints and self.rounds > 1:
            # a table of invariants to start from; it is used only if it proves inductive for this tree
            inv, invw = dict(self.hints[0]), set(self.hints[1])
            rd = 0
        while True:
            rd += 1
            tm.next_round()
            tm.T.inv = inv
            tm.T.invw = invw
            interp._taint.clear()
            E = self.engine()
            E.round = rd
            E.bot = rd > 0
            E.assumed = set(self.assumed)
            for k, v in self.assumed.items():
                inv[k] = v
            before = dict(inv)
            E.monitors = [m() for m in self.mk_monitors]
            done = set()
            for f in self.roots():
                if self.only and not any(o in f.p for o in self.only):
                    continue
                t1 = time.time()
                self.run_root(E, f)
                if self.verbose and time.time() - t1 > 0.5:
                    print('   %-60s %.1fs' % (short(f.p), time.time() - t1), file=sys.stderr)
            # spawned tasks
            while True:
                todo = [t for t in E.spawns if t not in done]
                if not todo:
                    break
                for ty in todo:
                    done.add(ty)
                    t = self.P.types[ty]
                    st = State()
                    n = nm(('task', t.get('dp', t['p'])))
                    vals = []
                    for i, ut in enumerate(t['u']):
                        un = nm((n, ('f', i)), None, ('up', t.get('dp', t['p']), i))
                        vals.append(E.mk_opaque(un, ut, st))
                    t1 = time.time()
                    E.root = 'task ' + t['p']
                    self.run_cor(E, ty, ('C', ty, tuple(vals)), st)
                    if self.verbose and time.time() - t1 > 0.5:
                        print('   task %-60s %.1fs' % (short(t['p']), time.time() - t1), file=sys.stderr)
            if self.verbose:
                print('round %d: %.1fs %s' % (rd, time.time() - t0, {k: (v if not isinstance(v, set) else len(v)) for k, v in E.stats.items()}), file=sys.stderr)
            if rd == 0:
                if self.rounds == 1:
                    break
                # guess: what is known to be stored, leaving out the values of which nothing is known yet
                inv = {}
                for k, v in E.rec.items():
                    g = E.recg.get(k)
                    if v[0] == 'i' and (g is None or k[-1] == 'len' or g[2] - g[1] > 2048):
                        g = ('i', max(v[1], 0), max(v[1], 0))
                        if k[-1] == 'len' and 'm' in k and g[1] == 0:
                            g = ('i', 1, 1)     # tables held in a table entry: try 'never empty' first
                    inv[k] = g or v
                invw = E.wire_keys()
                continue
            # inductive once everything recorded under the assumed table lies inside it
            bad = E.changed
            for k in bad:
                g = grown[k] = grown.get(k, 0) + 1
                o = inv[k]
                if o[0] == 'i' and g >= 2:
                    b = before.get(k)
                    lo, hi = o[1], o[2]
                    if b is None or lo < b[1]:
                        lo = max((t for t in LTHR if t <= lo), default=NEG) if g < 3 else NEG
                    if b is None or hi > b[2]:
                        hi = min((t for t in THR if t >= hi), default=POS) if g < 3 else POS
                    inv[k] = ('i', lo, hi)
            more = E.wire_keys() - invw
            if self.verbose:
                print('   invariants outside the assumed table: %d, wire keys added: %d' % (len(bad), len(more)), file=sys.stderr)
                if os.environ.get('INVB'):
                    for k in bad: print('     ', k, inv[k], file=sys.stderr)
            if not bad and not more:
                break
            if rd > 12:
                raise Abort('invariants do not converge')
            invw = invw | more
        self.E = E
        self.inv = inv
        self.invw = invw
        self.nrounds = rd + 1
        return E
