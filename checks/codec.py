"""P02: what an encoder writes its decoder reads back; P03: encoders write the RakNet wire layout."""
from sa.driver import Run
from sa.unit import Unit, sig, find_fns
from sa.terms import *
from sa.state import State
from sa import eqv, witness
from sa.interp import Abort

MAGIC = bytes([0x00, 0xff, 0xff, 0x00, 0xfe, 0xfe, 0xfe, 0xfe, 0xfd, 0xfd, 0xfd, 0xfd, 0x12, 0x34, 0x56, 0x78])

# the published RakNet (Minecraft: Bedrock dialect) layouts, field by field
ID, M = 'id', ('magic',)
LAYOUT = {
    'ConnectedPing': [(ID, 0x00), ('int', 8, 'B', 'client_timestamp')],
    'ConnectedPong': [(ID, 0x03), ('int', 8, 'B', 'client_timestamp'), ('int', 8, 'B', 'server_timestamp')],
    'PacketUnconnectedPing': [(ID, 0x01), ('int', 8, 'B', 'time'), M, ('int', 8, 'B', 'guid')],
    'PacketUnconnectedPong': [(ID, 0x1c), ('int', 8, 'B', 'time'), ('int', 8, 'B', 'guid'), M, ('str', 'motd')],
    'OpenConnectionRequest1': [(ID, 0x05), M, ('int', 1, 'B', 'protocol_version'), ('pad', 'mtu_size', 46)],
    'OpenConnectionReply1': [(ID, 0x06), M, ('int', 8, 'B', 'guid'), ('int', 1, 'B', 'use_encryption'), ('int', 2, 'B', 'mtu_size')],
    'OpenConnectionRequest2': [(ID, 0x07), M, ('addr', 'address'), ('int', 2, 'B', 'mtu'), ('int', 8, 'B', 'guid')],
    'OpenConnectionReply2': [(ID, 0x08), M, ('int', 8, 'B', 'guid'), ('addr', 'address'), ('int', 2, 'B', 'mtu'), ('int', 1, 'B', 'encryption_enabled')],
    'AlreadyConnected': [(ID, 0x12), M, ('int', 8, 'B', 'guid')],
    'IncompatibleProtocolVersion': [(ID, 0x19), ('int', 1, 'B', 'server_protocol'), M, ('int', 8, 'B', 'server_guid')],
    'ConnectionRequest': [(ID, 0x09), ('int', 8, 'B', 'guid'), ('int', 8, 'B', 'time'), ('int', 1, 'B', 'use_encryption')],
    'ConnectionRequestAccepted': [(ID, 0x10), ('addr', 'client_address'), ('int', 2, 'B', 'system_index'), ('sysaddrs', 10),
                                  ('int', 8, 'B', 'request_timestamp'), ('int', 8, 'B', 'accepted_timestamp')],
    'NewIncomingConnection': [(ID, 0x13), ('addr', 'server_address'), ('sysaddrs', 10), ('int', 8, 'B', 'request_timestamp'), ('int', 8, 'B', 'accepted_timestamp')],
    'Nack': [(ID, 0xa0), ('ranges',)],
    'Ack': [(ID, 0xc0), ('ranges',)],
}
LISTS = ('Nack', 'Ack')


def short_ty(P, ty):
    t = P.types[ty]
    return t['p'].split('::')[-1] if t['k'] == 'adt' else None


def packet_of(P, ty):
    """the local struct a `&T` / `T` names"""
    t = P.types[ty]
    if t['k'] == 'ref':
        ty = t['t']
        t = P.types[ty]
    if t['k'] == 'adt' and t.get('l') and t.get('v') and t.get('ak') != 'enum':
        return ty
    return None


def result_of(P, ty):
    t = P.types[ty]
    if t['k'] == 'adt' and t['p'].endswith('result::Result'):
        return t['a'][0]
    return None


def is_bytes(P, ty):
    return P.ts(ty) in ('std::vec::Vec<u8>', 'alloc::vec::Vec<u8>')


def discover(P):
    """encoders: fn(&T) -> Result<Vec<u8>>; decoders: fn(&[u8]) -> Result<T>, for every local packet struct T"""
    W, R = {}, {}
    for f in find_fns(P):
        if '{closure' in f.p or f.d.get('cor'):
            continue
        a, r = sig(P, f)
        if len(a) != 1:
            continue
        ok = result_of(P, r)
        if ok is None:
            continue
        pk = packet_of(P, a[0])
        if pk is not None and is_bytes(P, ok) and short_ty(P, pk) in LAYOUT:
            W.setdefault(short_ty(P, pk), []).append((f, pk))
        t = P.types[a[0]]
        if t['k'] == 'ref' and P.ts(t['t']) == '[u8]' and packet_of(P, ok) is not None and short_ty(P, ok) in LAYOUT:
            R.setdefault(short_ty(P, ok), []).append((f, ok))
    return W, R


def u24(name):
    return lin(atom(('o', nm(('seq', name))), 0, (1 << 24) - 1))


def fields(P, ty):
    return {f[0]: (i, f[1]) for i, f in enumerate(P.types[ty]['v'][0]['f'])}


def packets(u, ty, name):
    """[(label, state, value)]: opaque packets within the encodable range, lists in the shapes 0, 1 and 2 records"""
    P, E = u.P, u.E
    fs = fields(P, ty)
    out = []
    for n in ((0, 1, 2) if name in LISTS else (None,)):
        st = State()
        vals = []
        for fi, (fname, i) in enumerate((f, v) for f, v in sorted(((k, x[0]) for k, x in fs.items()), key=lambda q: q[1])):
            fty = fs[fname][1]
            v = u.opaque(fty, ('pkt', name, fname), st)
            if n is not None and P.types[fty]['k'] == 'adt' and P.ts(fty).endswith('Vec<(u32, u32)>'):
                v = ('Q', tuple(('one', ('T', (u24(2 * k), u24(2 * k + 1)))) for k in range(n)), ())
                for k in range(n):
                    st.assume(p_ge(sub(u24(2 * k + 1), u24(2 * k))))
            elif n is not None and fname == 'record_count':
                v = const(n)
            elif v is not None and isinstance(v, tuple) and v[0] == 'Q':
                st.assume(p_ge(sub(const(65535), E.seq_len(v))))
            elif isinstance(v, tuple) and v[0] == 'b' and fname == 'magic':
                v = True
            for tok in LAYOUT[name]:
                if tok[0] == 'pad' and tok[1] == fname:
                    st.assume(p_ge(addc(v, -tok[2])))
            vals.append(v)
        out.append(('%s%s' % (name, '' if n is None else '[%d records]' % n), st, ('S', ty, tuple(vals))))
    return out


def expected(u, name, val, P, ty):
    """[(conditions, byte sequence)] the layout prescribes for this packet"""
    E = u.E
    fs = fields(P, ty)
    alts = [([], [])]
    for tok in LAYOUT[name]:
        nxt = []
        for cs, segs in alts:
            if tok[0] == 'id':
                nxt.append((cs, segs + [('one', const(tok[1]))]))
            elif tok[0] == 'magic':
                nxt.append((cs, segs + [('one', const(b)) for b in MAGIC]))
            elif tok[0] == 'int':
                nxt.append((cs, segs + [('int', val[2][fs[tok[3]][0]], tok[1], tok[2])]))
            elif tok[0] == 'str':
                q = val[2][fs[tok[1]][0]]
                nxt.append((cs, segs + [('int', E.seq_len(q), 2, 'B')] + list(q[1])))
            elif tok[0] == 'pad':
                nxt.append((cs, segs + [('rep', const(0), addc(val[2][fs[tok[1]][0]], -tok[2]))]))
            elif tok[0] == 'addr':
                a = val[2][fs[tok[1]][0]]
                n = a[1]
                d = E.discr(State(), a)
                port = lin(atom(('o', child(n, 'port')), 0, 65535))
                for v6 in (0, 1):
                    if not v6:
                        seg = [('one', const(4))]
                        for k in range(4):
                            o = E.mk_opaque(E.elem_nm(child(n, 'oct4'), const(k), E.u8), E.u8, State())
                            seg.append(('one', sub(const(255), o)))
                        seg.append(('int', port, 2, 'B'))
                    else:
                        seg = [('one', const(6)), ('one', const(23)), ('one', const(0)), ('int', port, 2, 'B'), ('int', const(0), 4, 'B'),
                               ('sub', child(n, 'oct16'), const(0), const(16)), ('int', const(0), 4, 'B')]
                    nxt.append((cs + [p_eq(addc(d, -v6))], segs + seg))
            elif tok[0] == 'sysaddrs':
                nxt.append((cs, segs + [('sysaddrs', tok[1])]))
            elif tok[0] == 'ranges':
                q = val[2][[i for k, (i, t) in fs.items() if 'Vec' in P.ts(t)][0]]
                subs = [(cs, segs + [('int', const(len(q[1])), 2, 'B')])]
                for g in q[1]:
                    a, b = g[1][1]
                    subs = [x for c1, sg in subs for x in (
                        (c1 + [p_eq(sub(a, b))], sg + [('one', const(1)), ('int', a, 3, 'L')]),
                        (c1 + [p_ne(sub(a, b))], sg + [('one', const(0)), ('int', a, 3, 'L'), ('int', b, 3, 'L')]))]
                nxt.extend(subs)
        alts = nxt
    return alts


def ok_payload(v):
    """the payload of a Result known to be Ok / 'err' / None"""
    if v[0] != 'E' or not is_const(v[2]):
        return None
    if v[2].c == 0:
        return dict(v[3])[0][0]
    return 'err'


def match_layout(E, st, q, segs):
    """the encoder's bytes against the prescribed ones; n internal addresses may be any well-formed addresses"""
    k = [i for i, g in enumerate(segs) if g[0] == 'sysaddrs']
    if not k:
        return eqv.eq_seq(E, st, q, ('Q', tuple(segs), ()))
    have = eqv.items(E, st, q)
    if have is None or any(h[0] != 'b' for h in have):
        return None
    pre = eqv.items(E, st, ('Q', tuple(segs[:k[0]]), ()))
    post = eqv.items(E, st, ('Q', tuple(segs[k[0] + 1:]), ()))
    mid = have[len(pre):len(have) - len(post)]
    i = n = 0
    while i < len(mid):
        f = mid[i][1]
        if f is const(4):
            i += 7
        elif f is const(6):
            i += 29
        else:
            return False
        n += 1
    if n != segs[k[0]][1] or i != len(mid):
        return False
    r = True
    for x, y in zip(have[:len(pre)] + have[len(have) - len(post):], pre + post):
        r = eqv.and3(r, eqv.eq_lin(st, x[1], y[1]))
    return r


def wire(rep):
    """P03"""
    r = Run(rounds=1)
    P = r.P
    W, R = discover(P)
    rep.rule('Every encoder (function from a packet to bytes) is analysed on an arbitrary packet; on each return path the byte sequence it '
             'built (as terms over the packet fields) must equal the published RakNet layout of that packet: id byte, field order, width, byte '
             'order, magic, address and range-list encoding.')
    rep.assume += ['strings are at most 65535 bytes, sequence numbers below 2^24, padded probes have an mtu of at least 46',
                   'range lists are checked in the shapes 0, 1 and 2 records; the loop body is the same for every further record']
    n = 0
    for name in LAYOUT:
        for f, ty in W.get(name, []):
            u = Unit(r)
            u.E.unroll = 14
            for label, st, val in packets(u, ty, name):
                loc = ('h', nm(('pkt', name)))
                st.mem[loc] = val
                exp = expected(u, name, val, P, ty)
                try:
                    outs = u.call(f, [('R', loc, ())], st)
                except Abort as e:
                    rep.und('layout %s' % label, str(e))
                    continue
                if not outs:
                    rep.bad('layout %s' % label, '%s returns on no path for an encodable packet' % f.p)
                for s, v in outs:
                    q = ok_payload(v)
                    if q == 'err':
                        rep.bad('layout %s' % label, '%s rejects an encodable packet' % f.p)
                        continue
                    if q is None or q[0] != 'Q':
                        rep.und('layout %s' % label, str(v)[:200])
                        continue
                    res = False
                    for conds, segs in exp:
                        s3 = s.copy()
                        if not all(s3.assume(c) for c in conds):
                            continue
                        m = match_layout(u.E, s3, q, segs)
                        if m is not True:
                            res = m
                            break
                        res = True
                    n += 1
                    if res is None:
                        rep.und('layout %s' % label, str(q)[:300])
                    else:
                        rep.check('layout %s' % label, res, '%s (%s): bytes %s do not have the published layout' % (f.p, where(f), show(u.E, s, q)))
    rep.floor('encoders found', sum(len(x) for x in W.values()), 15)
    rep.floor('encoder return paths compared with the layout', n, 25)
    frame_wire(rep, r)


def show(E, s, q):
    it = eqv.items(E, s, q)
    return str(q)[:500] if it is None else ' '.join(str(x[1]) if x[0] == 'b' else str(x) for x in it)[:600]


def where(f):
    return f.d.get('span') or f.p


def roundtrip(rep):
    """P02"""
    r = Run(rounds=1)
    P = r.P
    W, R = discover(P)
    rep.rule('For every packet kind with both an encoder and a decoder, the bytes built by the encoder for an arbitrary packet are handed to '
             'the decoder in the abstract domain: the decoder must succeed on every path and every field it returns must be the same '
             'term as the field that was encoded.')
    rep.assume += ['strings are at most 65535 bytes and sequence numbers are below 2^24',
                   'the decoder of the connection-accepted packet does not read its two timestamps (documented in the source); they are left out',
                   'range lists are checked in the shapes 0, 1 and 2 records']
    n = pairs = 0
    for name in LAYOUT:
        for f, ty in W.get(name, []):
            for g, _ in R.get(name, []):
                pairs += 1
                u = Unit(r)
                E = u.E
                E.unroll = 14
                fs = {i: k for k, (i, t) in fields(P, ty).items()}
                for label, st, val in packets(u, ty, name):
                    key = 'roundtrip %s' % label
                    loc = ('h', nm(('pkt', name)))
                    st.mem[loc] = val
                    try:
                        for s, v in u.call(f, [('R', loc, ())], st):
                            q = ok_payload(v)
                            if q is None or q == 'err' or q[0] != 'Q':
                                (rep.bad if q == 'err' else rep.und)(key, '%s: %s' % (f.p, str(v)[:200]))
                                continue
                            b = ('h', nm(('bytes', name)))
                            s.mem[b] = q
                            outs = u.call(g, [('SL', b, (), const(0), E.seq_len(q))], s)
                            if not outs:
                                rep.bad(key, '%s returns on no path for the bytes of %s' % (g.p, f.p))
                            for s2, v2 in outs:
                                p = ok_payload(v2)
                                n += 1
                                if p == 'err':
                                    if utf8_err(E, s2, val):
                                        continue
                                    (rep.bad if witness.feasible(s2) else rep.und)(key, '%s refuses bytes %s built by %s' % (g.p, show(E, s2, q), f.p))
                                    continue
                                if p is None or p[0] != 'S':
                                    rep.und(key, str(v2)[:200])
                                    continue
                                for i, x in enumerate(p[2]):
                                    if name == 'ConnectionRequestAccepted' and fs[i].endswith('timestamp'):
                                        continue
                                    m = eqv.eq(E, s2, val[2][i], x)
                                    if m is None:
                                        rep.und(key + ' .' + fs[i], '%s vs %s' % (str(val[2][i])[:200], str(x)[:200]))
                                    else:
                                        rep.check(key + ' .' + fs[i], m, 'field %s written by %s comes back from %s as %s instead of %s' % (
                                            fs[i], f.p, g.p, str(x)[:300], str(val[2][i])[:200]))
                    except Abort as e:
                        rep.und(key, str(e))
    rep.floor('encoder/decoder pairs', pairs, 14)
    rep.floor('decoder return paths', n, 20)
    frame_roundtrip(rep, r)
    tables(rep, r)


def utf8_err(E, s, val):
    """the path on which the bytes of a string are not UTF-8 does not exist for the bytes of an encoded string"""
    for a, b in s.bools.items():
        if b is False and a.key[0] == 'utf8':
            for x in val[2]:
                if isinstance(x, tuple) and x[0] == 'Q' and eqv.eq_seq(E, s, a.key[1], x) is True:
                    return True
    return False


# ---------------------------------------------------------------- frames
RELIABLE, SEQUENCED, ORDERED = (2, 3, 4), (1, 4), (1, 3, 4)


def one_fn(P, suffix, rep):
    fs = [f for f in find_fns(P, suffix) if '{closure' not in f.p]
    if len(fs) != 1:
        rep.bad('anchor ' + suffix, '%d functions end in %s' % (len(fs), suffix))
        return None
    return fs[0]


def frame(u, P, ty, rel, frag, tag, st, big=False):
    """an arbitrary frame of this kind: indices below 2^24, payload below 8192 bytes, fields that are not on the wire zero"""
    E = u.E
    fs = fields(P, ty)
    vals = [None] * len(fs)
    n = nm(('frame', tag))

    def num(f, hi):
        return lin(atom(('o', nm((n, f))), 0, hi))
    dn = nm((n, 'data'))
    data = ('Q', (('sub', dn, const(0), E.len_atom(dn)),), ())
    st.assume(p_ge(sub(const(8191), E.seq_len(data))))
    v = {'id': num('id', 255), 'sequence_number': num('seq', (1 << 24) - 1), 'flags': const(rel << 5 | (16 if frag else 0)),
         'length_in_bytes': E.seq_len(data),
         'reliable_frame_index': num('rel', (1 << 24) - 1) if rel in RELIABLE else const(0),
         'sequenced_frame_index': num('sq', (1 << 24) - 1) if rel in SEQUENCED else const(0),
         'ordered_frame_index': num('ord', (1 << 24) - 1) if rel in ORDERED else const(0),
         'order_channel': num('chan', 255) if rel in ORDERED else const(0),
         'compound_size': num('cs', (1 << 32) - 1) if frag else const(0),
         'compound_id': num('ci', 65535) if frag else const(0),
         'fragment_index': num('fi', (1 << 32) - 1) if frag else const(0),
         'data': data}
    for k, x in v.items():
        if k in fs:
            vals[fs[k][0]] = x
    for k, (i, t) in fs.items():
        if vals[i] is None:
            vals[i] = u.opaque(t, ('frame', tag, k), st)
    return v, ('S', ty, tuple(vals))


def frame_layout(v, rel, frag):
    segs = [('int', v['sequence_number'], 3, 'L'), ('one', v['flags']), ('int', scale(v['length_in_bytes'], 8), 2, 'B')]
    if rel in RELIABLE:
        segs.append(('int', v['reliable_frame_index'], 3, 'L'))
    if rel in SEQUENCED:
        segs.append(('int', v['sequenced_frame_index'], 3, 'L'))
    if rel in ORDERED:
        segs += [('int', v['ordered_frame_index'], 3, 'L'), ('one', v['order_channel'])]
    if frag:
        segs += [('int', v['compound_size'], 4, 'B'), ('int', v['compound_id'], 2, 'B'), ('int', v['fragment_index'], 4, 'B')]
    return segs + list(v['data'][1])


def serialized(u, rep, f, key, st, val):
    loc = ('h', nm(('frame', key)))
    st.mem[loc] = val
    out = []
    for s, v in u.call(f, [('R', loc, ())], st):
        q = ok_payload(v)
        if q == 'err':
            rep.bad(key, '%s refuses an encodable frame' % f.p)
        elif q is None or q[0] != 'Q':
            rep.und(key, str(v)[:200])
        else:
            out.append((s, q))
    return out


def frame_wire(rep, r):
    P = r.P
    f = one_fn(P, 'FrameSetPacket::serialize', rep)
    if not f:
        return
    ty = packet_of(P, sig(P, f)[0][0])
    rep.rule('The frame encoder is analysed for each of the 5 reliabilities, fragmented and not: id 0x84 (0x8c for a continuing fragment), '
             'little-endian 24-bit numbers, flags, bit length, index fields in order, big-endian fragment header, payload.')
    n = 0
    for rel in range(5):
        for frag in (False, True):
            key = 'frame layout reliability=%d%s' % (rel, ' fragment' if frag else '')
            u = Unit(r)
            st = State()
            v, val = frame(u, P, ty, rel, frag, key, st)
            try:
                outs = serialized(u, rep, f, key, st, val)
            except Abort as e:
                rep.und(key, str(e))
                continue
            rep.check(key + ' is encodable', outs, 'no path returns bytes')
            for s, q in outs:
                for first in ((True, False) if frag else (None,)):
                    s2 = s.copy()
                    if first is not None and not s2.assume(p_eq(v['fragment_index']) if first else p_ne(v['fragment_index'])):
                        continue
                    ident = const(0x8c if first is False else 0x84)
                    m = eqv.eq_seq(u.E, s2, q, ('Q', (('one', ident),) + tuple(frame_layout(v, rel, frag)), ()))
                    n += 1
                    if m is None:
                        rep.und(key, str(q)[:300])
                    else:
                        rep.check(key, m, '%s (%s): bytes %s do not have the published layout' % (f.p, where(f), show(u.E, s2, q)))
    rep.floor('frame encoder paths compared', n, 12)


def frame_roundtrip(rep, r):
    P = r.P
    f = one_fn(P, 'FrameSetPacket::serialize', rep)
    g = one_fn(P, 'FrameVec::new', rep)
    if not f or not g:
        return
    ty = packet_of(P, sig(P, f)[0][0])
    rep.rule('The bytes of an encoded frame (5 reliabilities, fragmented or not), and of two frames in one datagram, must decode into exactly those frames.')
    names = {i: k for k, (i, t) in fields(P, ty).items()}
    n = 0
    cases = [((rel, frag),) for rel in range(5) for frag in (False, True)]
    cases += [((3, False), (3, True)), ((2, False), (0, False)), ((4, True), (1, False))]
    for case in cases:
        key = 'frame roundtrip ' + ' + '.join('reliability=%d%s' % (c[0], ' fragment' if c[1] else '') for c in case)
        u = Unit(r)
        E = u.E
        E.unroll = 4
        st = State()
        vals = []
        vs = []
        for k, (rel, frag) in enumerate(case):
            v, val = frame(u, P, ty, rel, frag, (key, k), st)
            if k:
                v['sequence_number'] = vs[0]['sequence_number']
            vs.append(v)
            vals.append(val)
        try:
            work = [(st, None)]
            for k, val in enumerate(vals):
                nxt = []
                for s, q in work:
                    for s2, q2 in serialized(u, rep, f, key, s, val):
                        if q is not None:
                            q2 = E.seq_cat(q, E.seq_slice(s2, q2, const(4), addc(E.seq_len(q2), -4)))
                        nxt.append((s2, q2))
                work = nxt
            for s, q in work:
                outs = u.call(g, [q], s)
                if not outs:
                    rep.bad(key, '%s returns on no path' % g.p)
                for s2, v2 in outs:
                    p = ok_payload(v2)
                    n += 1
                    if p == 'err':
                        (rep.bad if witness.feasible(s2) else rep.und)(key, '%s refuses bytes %s' % (g.p, show(E, s2, q)))
                        continue
                    if p is None or p[0] != 'S':
                        rep.und(key, str(v2)[:200])
                        continue
                    lst = [x for x in p[2] if isinstance(x, tuple) and x[0] == 'Q']
                    if len(lst) != 1 or any(gg[0] != 'one' for gg in lst[0][1]):
                        rep.und(key, str(p)[:200])
                        continue
                    if not rep.check(key + ' count', len(lst[0][1]) == len(case), '%s decodes %d frames out of %d' % (g.p, len(lst[0][1]), len(case))):
                        continue
                    for k, gg in enumerate(lst[0][1]):
                        for i, x in enumerate(gg[1][2]):
                            if names[i] == 'id':
                                continue
                            want = vs[k].get(names[i])
                            if want is None:
                                continue
                            m = eqv.eq(E, s2, want, x)
                            if m is None:
                                rep.und('%s .%s' % (key, names[i]), '%s vs %s' % (str(want)[:200], str(x)[:200]))
                            else:
                                rep.check('%s .%s' % (key, names[i]), m, 'frame %d field %s comes back as %s instead of %s' % (k, names[i], str(x)[:200], str(want)[:200]))
        except Abort as e:
            rep.und(key, str(e))
    rep.floor('frame decoder paths', n, 13)


# ---------------------------------------------------------------- code tables
def tables(rep, r):
    """numbers <-> names of packets and reliabilities"""
    P = r.P
    rep.rule('For every enum with a pair of functions enum->u8 and u8->Result<enum>, the two tables are extracted and must be inverse '
             '(0x80..=0x8d all name a frame set).')
    pairs = 0
    to, frm = {}, {}
    for f in find_fns(P):
        if '{closure' in f.p or f.d.get('cor'):
            continue
        a, ret = sig(P, f)
        if len(a) != 1:
            continue
        t = a[0]
        if P.types[t]['k'] == 'ref':
            t = P.types[t]['t']
        if P.types[t]['k'] == 'adt' and P.types[t].get('l') and P.types[t].get('ak') == 'enum' and P.ts(ret) == 'u8':
            to.setdefault(t, []).append((f, P.types[a[0]]['k'] == 'ref'))
        ok = result_of(P, ret)
        if P.ts(a[0]) == 'u8' and ok is not None and P.types[ok]['k'] == 'adt' and P.types[ok].get('l') and P.types[ok].get('ak') == 'enum':
            frm.setdefault(ok, []).append(f)
    for ty in to:
        for f, byref in to[ty]:
            for g in frm.get(ty, []):
                pairs += 1
                t = P.types[ty]
                code = {}
                name = t['p'].split('::')[-1]
                for vi, va in enumerate(t['v']):
                    u = Unit(r)
                    st = State()
                    val = ('E', ty, const(va['d']), ((vi, ()),))
                    if byref:
                        loc = ('h', nm(('en',)))
                        st.mem[loc] = val
                        val = ('R', loc, ())
                    outs = u.call(f, [val], st)
                    key = 'table %s::%s' % (name, va['n'])
                    if len(outs) != 1 or not isinstance(outs[0][1], Lin) or not is_const(outs[0][1]):
                        rep.und(key, 'no constant')
                        continue
                    code[va['n']] = c = outs[0][1].c
                    u = Unit(r)
                    back = [ok_payload(v) for s, v in u.call(g, [const(c)], State())]
                    if len(back) != 1 or back[0] is None:
                        rep.und(key, str(back)[:200])
                    elif back[0] == 'err':
                        rep.bad(key, '%s does not accept 0x%02x, the code of %s' % (g.p, c, va['n']))
                    else:
                        want = va['d']
                        if 0x80 <= c <= 0x8d:
                            u2 = Unit(r)
                            u2o = [ok_payload(v) for s, v in u2.call(g, [const(0x80)], State())]
                            want = u2o[0][2].c if u2o and isinstance(u2o[0], tuple) and u2o[0][0] == 'E' else want
                        rep.check(key, is_const(back[0][2]) and back[0][2].c == want, '0x%02x, the code of %s, is read back as %s' % (c, va['n'], back[0][2]))
                rep.check('table %s has distinct codes' % name, len(set(code.values())) == len(code), str(code))
    rep.floor('code tables', pairs, 2)
