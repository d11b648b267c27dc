"""Loading of the exported MIR and static per-function facts (CFG, loops, liveness)."""
import json

INTW = {'u8': (8, 0), 'u16': (16, 0), 'u32': (32, 0), 'u64': (64, 0), 'u128': (128, 0), 'usize': (64, 0),
        'i8': (8, 1), 'i16': (16, 1), 'i32': (32, 1), 'i64': (64, 1), 'i128': (128, 1), 'isize': (64, 1)}


def int_range(s):
    if s == 'char':
        return (0, 0x10ffff)
    w, sg = INTW[s]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)


class Fn:
    __slots__ = ('id', 'd', 'p', 'local', 'blocks', 'locals', 'argc', 'succ', 'wto', 'live', 'borrowed', 'loops', 'rpo',
                 'sp', 'body_of', 'mentions')


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.files = d['files']
        self.types = d['types']
        self.fns = []
        for i, f in enumerate(d['fns']):
            F = Fn()
            F.id = i
            F.d = f
            F.p = f.get('p', '?') if f else '?'
            F.local = bool(f and f.get('l'))
            F.blocks = f.get('b') if f else None
            F.locals = f.get('locals') if f else None
            F.argc = f.get('argc', 0) if f else 0
            F.sp = f.get('sp') if f else None
            F.wto = None
            self.fns.append(F)
        self.by_path = {}
        for F in self.fns:
            if F.blocks is not None:
                self.by_path.setdefault(F.p, []).append(F)
        self.adt_types = {}
        for i, t in enumerate(self.types):
            if t['k'] == 'adt':
                self.adt_types.setdefault(t['p'], []).append(i)
        self._ref = {}
        self._tid = {}
        for i, t in enumerate(self.types):
            self._tid.setdefault(t['s'], i)

    # -- types
    def kind(self, ty):
        return self.types[ty]['k']

    def adt_ty(self, *paths):
        """the type number of an ADT given by path"""
        for i, t in enumerate(self.types):
            if t['k'] == 'adt' and t.get('v') and (t['p'] in paths or t['s'] in paths):
                return i
        return None

    def ts(self, ty):
        return self.types[ty]['s']

    def adt(self, ty):
        t = self.types[ty]
        return t['p'] if t['k'] == 'adt' else None

    def irange(self, ty):
        t = self.types[ty]
        if t['k'] == 'char':
            return int_range('char')
        return int_range(t['s'])

    def is_int(self, ty):
        return self.types[ty]['k'] in ('int', 'char')

    def tid(self, s):
        return self._tid.get(s)

    def elem_ty(self, ty):
        """element type of a sequence-like type"""
        t = self.types[ty]
        k = t['k']
        if k in ('slice', 'array'):
            return t['t']
        if k == 'str':
            return self.tid('u8')
        if k == 'adt':
            p = t['p']
            if p == 'alloc::string::String':
                return self.tid('u8')
            if t.get('a'):
                return t['a'][0]
        if k in ('ref', 'ptr'):
            return self.elem_ty(t['t'])
        return None

    def variants(self, ty):
        return self.types[ty].get('v')

    def var_of_discr(self, ty, d):
        for i, v in enumerate(self.types[ty].get('v') or []):
            if v['d'] == d:
                return i
        return None

    def span(self, sp):
        if not sp:
            return '?'
        return '%s:%d' % (self.files[sp[0]], sp[1])

    def field_index(self, ty, name):
        v = self.types[ty].get('v')
        if not v:
            return None
        for i, f in enumerate(v[0]['f']):
            if f[0] == name:
                return i
        return None

    # -- per function
    def prep(self, F):
        if F.wto is not None:
            return F
        n = len(F.blocks)
        F.succ = [[] for _ in range(n)]
        for i, b in enumerate(F.blocks):
            if b is None:
                continue
            F.succ[i] = [s for s in term_succ(b['t']) if F.blocks[s] is not None]
        F.rpo = rpo(F.succ)
        F.wto = wto(F.succ)
        F.loops = {}
        collect_loops(F.wto, F.loops)
        liveness(F)
        return F


def term_succ(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        r = []
        for _, b in t[2]:
            if b not in r:
                r.append(b)
        if t[3] is not None and t[3] not in r:
            r.append(t[3])
        return r
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4 - 0]] if t[4] is not None else []
    if k == 'assert':
        return [t[5]]
    if k == 'yield':
        return [t[2]]
    return []


def rpo(succ):
    seen = set()
    out = []
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    while stack:
        n, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            out.append(n)
            stack.pop()
    out.reverse()
    return out


def sccs(nodes, succ):
    """Tarjan, iterative; returns SCCs in reverse topological order"""
    idx = {}
    low = {}
    onst = set()
    st = []
    res = []
    ns = set(nodes)
    c = [0]
    for root in nodes:
        if root in idx:
            continue
        work = [(root, iter([s for s in succ[root] if s in ns]))]
        idx[root] = low[root] = c[0]
        c[0] += 1
        st.append(root)
        onst.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = c[0]
                    c[0] += 1
                    st.append(w)
                    onst.add(w)
                    work.append((w, iter([s for s in succ[w] if s in ns])))
                    adv = True
                    break
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop()
                    onst.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                res.append(comp)
    return res


def wto(succ):
    order = rpo(succ)
    pos = {b: i for i, b in enumerate(order)}

    def build(nodes, succ):
        out = []
        comps = sccs(sorted(nodes, key=lambda b: pos[b]), succ)
        comps.reverse()
        for c in comps:
            if len(c) == 1 and c[0] not in succ[c[0]]:
                out.append(c[0])
            else:
                head = min(c, key=lambda b: pos[b])
                rest = [x for x in c if x != head]
                sub = {x: [s for s in succ[x] if s != head] for x in c}
                out.append((head, build(rest, sub) if rest else [], frozenset(c)))
        return out
    return build(order, {b: succ[b] for b in order})


def collect_loops(w, out):
    for e in w:
        if isinstance(e, tuple):
            out[e[0]] = e[2]
            collect_loops(e[1], out)


def places_of_operand(o):
    if o[0] in ('c', 'm'):
        return [o[1]]
    return []


def rv_places(rv):
    k = rv[0]
    if k in ('use', 'rep'):
        return places_of_operand(rv[1])
    if k in ('ref', 'rb', 'raw'):
        return [rv[2]] if k != 'rb' else [p for p in rv if isinstance(p, list) and len(p) == 2 and isinstance(p[0], int)]
    if k == 'cast':
        return places_of_operand(rv[2])
    if k == 'bin':
        return places_of_operand(rv[2]) + places_of_operand(rv[3])
    if k == 'un':
        return places_of_operand(rv[2])
    if k == 'discr':
        return [rv[1]]
    if k == 'agg':
        r = []
        for o in rv[2]:
            r += places_of_operand(o)
        return r
    return []


def liveness(F):
    n = len(F.blocks)
    borrowed = set()
    use = [set() for _ in range(n)]
    deff = [set() for _ in range(n)]

    def read(i, l):
        if l not in deff[i]:
            use[i].add(l)

    def pl_read(i, p):
        read(i, p[0])
        for pr in p[1]:
            if pr[0] == 'i':
                read(i, pr[1])

    for i, b in enumerate(F.blocks):
        if b is None:
            continue
        for s in b['s']:
            if s[0] == '=':
                rv = s[2]
                if rv[0] in ('ref', 'raw', 'rb'):
                    for p in rv_places(rv):
                        if not any(x[0] == '*' for x in p[1]):
                            borrowed.add(p[0])
                for p in rv_places(rv):
                    pl_read(i, p)
                if s[1][1]:
                    pl_read(i, s[1])
                else:
                    deff[i].add(s[1][0])
            elif s[0] == 'dead':
                deff[i].add(s[1])
            elif s[0] == 'sd':
                pl_read(i, s[1])
            elif s[0] == 'assume':
                for p in places_of_operand(s[1]):
                    pl_read(i, p)
        t = b['t']
        if t[0] == 'switch' or t[0] == 'assert':
            for p in places_of_operand(t[1]):
                pl_read(i, p)
            if t[0] == 'assert':
                for o in t[4]:
                    for p in places_of_operand(o):
                        pl_read(i, p)
        elif t[0] == 'call':
            if 'dynf' in t[1]:
                for p in places_of_operand(t[1]['dynf']):
                    pl_read(i, p)
            for o in t[2]:
                for p in places_of_operand(o):
                    pl_read(i, p)
            if t[3][1]:
                pl_read(i, t[3])
        elif t[0] == 'drop':
            pl_read(i, t[1])
        elif t[0] == 'yield':
            for p in places_of_operand(t[1]):
                pl_read(i, p)
        elif t[0] == 'ret':
            read(i, 0)
    live = [set() for _ in range(n)]
    ch = True
    order = list(reversed(F.rpo))
    while ch:
        ch = False
        for i in order:
            o = set()
            for s in F.succ[i]:
                o |= live[s]
            l = use[i] | (o - deff[i])
            if l != live[i]:
                live[i] = l
                ch = True
    F.live = live
    F.borrowed = borrowed
