"""Which sequence numbers the receive queue acknowledges and asks for (part of P11)."""
from sa.unit import sig, find_fns
from sa.terms import *
from sa import terms as tm
from sa import witness
from .arq import Q, Lost, get, is_ok, NAMES, UNREL, UNREL_SEQ, REL, REL_ORD, REL_SEQ

NUM = (1 << 24) - 1


def put(u, ref, proj, vals):
    u.E.put(u.st, ref[1], ref[2] + proj, ('Q', tuple(('one', v) for v in vals), ()))


def pairs(E, st, q):
    """[(first, last)] of a list of ranges, None when the list is not known item by item"""
    if not (isinstance(q, tuple) and q[0] == 'Q'):
        return None
    out = []
    n = 0
    for g in q[1]:
        if g[0] != 'one':
            return None
        out.append(g[1])
    for k, v in q[2]:
        if not is_const(k) or not 0 <= k.c < len(out):
            return None
        out[k.c] = v
    r = []
    for v in out:
        if isinstance(v, tuple) and v[0] == 'O':
            v = E.expand(st, v)
        x = v[1] if isinstance(v, tuple) and v[0] == 'T' else v[2] if isinstance(v, tuple) and v[0] == 'S' else None
        if x is None or len(x) != 2 or not all(isinstance(y, Lin) for y in x):
            return None
        r.append(tuple(x))
    return r


def union_eq(e, old, new, s):
    """on this assignment: is the set of the new ranges the set of the old ones and s"""
    o = [(e.lin(a), e.lin(b)) for a, b in old] + [(e.lin(a), e.lin(b)) for a, b in s]
    n = [(e.lin(a), e.lin(b)) for a, b in new]
    pts = sorted({p + d for a, b in o + n for p in (a, b) for d in (-1, 0, 1)})
    for p in pts:
        if any(a <= p <= b for a, b in o) != any(a <= p <= b for a, b in n):
            return p
    return None


def eq(st, x, y):
    return st.decide(p_eq(sub(x, y))) is True


def le(st, x, y):
    return st.decide(p_ge(sub(y, x))) is True


def proved(st, old, new, s):
    """new = old and the range s, by pairing the ranges off"""
    s = list(s)
    new = list(new)
    left = []
    for o in old:
        i = next((i for i, n in enumerate(new) if eq(st, n[0], o[0]) and eq(st, n[1], o[1])), None)
        if i is None:
            left.append(o)
        else:
            new.pop(i)
    if not s:
        return not left and not new
    a, b = s[0]
    if not left and not new:
        return any(le(st, o[0], a) and le(st, b, o[1]) for o in old)
    if not left and len(new) == 1:
        return eq(st, new[0][0], a) and eq(st, new[0][1], b)
    if len(left) == 1 and len(new) == 1:
        o, n = left[0], new[0]
        return eq(st, n[0], a) and eq(st, addc(b, 1), o[0]) and eq(st, n[1], o[1]) or eq(st, n[1], b) and eq(st, addc(o[1], 1), a) and eq(st, n[0], o[0])
    return False


def judge(rep, key, st, old, new, s, what):
    """s: the ranges that are added"""
    if new is None:
        rep.und(key, what)
        return
    if proved(st, old, new, s):
        rep.ok(key)
        return
    ts = [x for p in old + new + list(s) for x in p]
    try:
        n = 0
        for e in witness.envs(st, ts, 60):
            n += 1
            p = union_eq(e, old, new, s)
            if p is not None:
                rep.bad(key, '%s: of %s and %s it makes %s, e.g. number %d with %s' % (what, old, list(s), new, p, witness.show(e)))
                return
    except witness.NoEval:
        pass
    rep.und(key, '%s: of %s and %s it makes %s' % (what, old, list(s), new))


class Seen:
    """was the number of the frame found among what the queue holds"""
    def __init__(self, seq):
        self.seq = seq

    def event(self, E, st, ev):
        if ev.kind == 'maphas' and ev.has is not False:
            k = ev.key[1] if isinstance(ev.key, tuple) and ev.key[0] == 'k' else ev.key
            if isinstance(k, Lin) and k is self.seq:
                st.mon['held'] = True

    def head(self, E, st, pt):
        pass

    def arrive(self, E, st, pt, back):
        pass


def numbers(rep):
    q = Q()
    P = q.P
    rep.rule('ACKSet and RecvQ, for any frame of each reliability and a queue that owes up to two ranges of acknowledgements and one of requests: after '
             'RecvQ::insert the numbers to acknowledge are those before and the frame\'s, the numbers to ask for are those before and the ones between the '
             'highest number seen and the frame\'s; ACKSet::get_ack and get_nack hand out all of them, once.')
    sty = q.self_ty(q.ack_insert)
    lists = [p for p, t in q.leaves(sty) if P.types[t]['k'] == 'adt' and P.types[t]['p'].split('::')[-1] in ('Vec', 'VecDeque')]
    ints = [p for p, t in q.leaves(sty) if P.types[t]['k'] == 'int']
    # which list is handed out by get_ack
    roles, cnt = {}, {}
    for name, f in (('ack', q.ack_get), ('nack', q.method('ACKSet', 'get_nack'))):
        u = q.new()
        ref = u.opaque(sig(P, f)[0][0], ('a', 0), u.st)
        vals = {p: ranges(u, 2, p) for p in lists}
        for p in lists:
            put(u, ref, p, vals[p])
        hit = set()
        for st, v in u.call(f, [ref], u.st):
            for p in lists:
                r = pairs(u.E, st, v)
                if r and any(x[1] in r for x in vals[p]) or pairs(u.E, st, get(u.E, st, ref, p)) != [x[1] for x in vals[p]]:
                    hit.add(p)
        if len(hit) == 1:
            roles[name] = hit.pop()
    if len(roles) != 2 or roles['ack'] == roles['nack'] or len(ints) != 1:
        rep.und('acknowledgement lists', 'not recognised (%s)' % roles)
    for name, f in (('ack', q.ack_get), ('nack', q.method('ACKSet', 'get_nack'))):
        key = 'the numbers to %s are handed out all, once' % ('acknowledge' if name == 'ack' else 'ask for')
        for n in (1, 2):
            u = q.new()
            ref = u.opaque(sig(P, f)[0][0], ('a', 0), u.st)
            vals = {}
            for p in lists:
                vals[p] = ranges(u, n, p)
                put(u, ref, p, vals[p])
            p = roles.get(name)
            if p is None:
                # the list in this role is the one a reader of the code would expect by elimination, if there is one
                p = next((x for x in lists if x not in roles.values()), None) if len(lists) == 2 and len(roles) == 1 else None
            if p is None:
                rep.und(key, 'no list is handed out')
                continue
            for st, v in u.call(f, [ref], u.st):
                cnt[name] = cnt.get(name, 0) + 1
                r = pairs(u.E, st, v)
                judge(rep, key, st, [x[1] for x in vals[p]], r, [], 'get_%s' % name)
                left = pairs(u.E, st, get(u.E, st, ref, p))
                rep.check(key, left == [], 'after get_%s %s are left' % (name, left)) if left is not None else rep.und(key, 'left')
    if len(roles) != 2 or roles['ack'] == roles['nack'] or len(ints) != 1:
        return
    # insertion
    rty = q.self_ty(q.recv_insert)
    sub_ = [p for p, t in struct_leaves(q, rty, sty)]
    if len(sub_) != 1:
        rep.und('acknowledgement lists', 'not found in the receive queue')
        return
    at = sub_[0]
    last = ints[0]
    for r in (UNREL, UNREL_SEQ, REL, REL_ORD, REL_SEQ):
        for frag in ((0, 16) if r == REL_ORD else (0,)):
            for n in (0, 1, 2) if not frag else (0,):
                u = q.new()
                E = u.E
                E.unroll = 0 if frag else 3
                ref = q.self_arg(u, q.recv_insert)
                acks = ranges(u, n, 'ack')
                nacks = ranges(u, 1 if n else 0, 'nack')
                put(u, ref, at + roles['ack'], acks)
                put(u, ref, at + roles['nack'], nacks)
                m = get(E, u.st, ref, at + last)
                fr = q.mkframe(u, (r << 5) | frag)
                s = q.fld(fr, 'sequence_number')
                u.st.assume(p_ge(sub(const(NUM), s)))
                u.st.assume(p_ge(sub(const(NUM), m)))
                E.monitors.append(Seen(s))
                for st, v in u.call(q.recv_insert, [ref, fr], u.st):
                    what = 'inserting a %s%s frame' % (NAMES[r], ' fragment' if frag else '')
                    cnt['insert'] = cnt.get('insert', 0) + 1
                    new = pairs(E, st, get(E, st, ref, at + roles['ack']))
                    old = [x[1] for x in acks]
                    if st.mon.get('held') and new == old:
                        rep.ok('the number of a received frame is acknowledged')
                        continue
                    judge(rep, 'the number of a received frame is acknowledged', st, old, new, [(s, s)], what)
                    if frag:
                        continue     # the loop over the acknowledgements is joined here
                    gap = (addc(m, 1), addc(s, -1))
                    # a gap that is known to be empty or not, or both are tried
                    for g in (True, False):
                        s2 = st.copy()
                        if not s2.assume(p_ge(sub(gap[1], gap[0])) if g else p_not(p_ge(sub(gap[1], gap[0])))):
                            continue
                        judge(rep, 'numbers passed over are asked for, no others', s2, [x[1] for x in nacks],
                              pairs(E, s2, get(E, s2, ref, at + roles['nack'])), [gap] if g else [], what)
                    m2 = get(E, st, ref, at + last)
                    key = 'the highest number seen is remembered'
                    if eq(st, m2, s) and le(st, m, s) or eq(st, m2, m) and le(st, s, m):
                        rep.ok(key)
                    else:
                        bad = None
                        try:
                            for e in witness.envs(st, [m2, m, s], 60):
                                if e.lin(m2) != max(e.lin(m), e.lin(s)):
                                    bad = witness.show(e)
                                    break
                        except witness.NoEval:
                            pass
                        (rep.bad if bad else rep.und)(key, '%s: it becomes %s, e.g. %s' % (what, m2, bad))
    rep.floor('exits of insert', cnt.get('insert', 0), 20)


def ranges(u, n, tag):
    r = []
    for i in range(n):
        a, b = (lin(atom(('o', nm(('range', str(tag), i, k))), 0, NUM)) for k in (0, 1))
        u.st.assume(p_ge(sub(b, a)))
        r.append(('T', (a, b)))
    return r


def struct_leaves(q, ty, want, proj=()):
    t = q.P.types[ty]
    if ty == want:
        return [(proj, ty)]
    out = []
    if t['k'] == 'adt' and t.get('l') and t.get('ak') == 'struct':
        for i, (_, ft) in enumerate(t['v'][0]['f']):
            out += struct_leaves(q, ft, want, proj + (('f', i, ft),))
    return out
