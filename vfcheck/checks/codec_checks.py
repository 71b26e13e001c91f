"""C01 decode values, C02 encode values, C03 access extents, C04 round trip."""
from ..codec import *
from ..absbits import Undecided


def locf(c, d):
    for h in c.hw:
        for f in c.mods[h].funcs.values():
            if f.name.startswith(d + '|'):
                for i in f.all():
                    s = i.loc()
                    if s != '?':
                        return s.split(':')[0]
    return 'lib/src/VertexValue.cpp'


def wr(it, base):
    """Source line of the last write to base."""
    w = [x for x in it.writes if x[0] == base]
    return w[-1][3].where() if w else ''


def wr_at(it, base, off):
    w = [x for x in it.writes if x[0] == base and x[1] is not None and x[1] <= off < x[1] + x[2]]
    return w[-1][3].where() if w else wr(it, base)


def untouched(it, mem, base, off, n):
    """Nothing is written to these bytes."""
    return not any((base, off + i) in mem for i in range(n)) and not any(
        w[0] == base and (w[1] is None or w[1] < off + n and off < w[1] + w[2]) for w in it.writes)


def c01(ws, r):
    c = Codec(ws, ('dec',))
    for h in c.hw:
        for l, t in PAIRS:
            if h == 1 and not (t == 'Float' and LAYOUTS[l][2] == 16):
                # without half floats both clones are the same program; analyse them all the same
                pass
            tag = '%s/%s%s' % (l, t, ' hw-half' if h else ' sw-half' if LAYOUTS[l][2] == 16 and t == 'Float' else '')
            if h == 1 and LAYOUTS[l][2] != 16:
                continue
            try:
                it = c.interp('dec', h, l, t)
            except Undecided as e:
                r.und('decode-value', tag, str(e))
                continue
            r.count('specialised decoders')
            r.count('abstract instructions', len(it.val))
            rv = retvals(it)
            if False in rv:
                r.bad('decode-accepts', tag, 'a valid element is rejected', locf(c, 'dec'))
                continue
            r.put('ok' if rv and set(rv) == {True} else 'undecided', 'decode-accepts', tag, 'returns true')
            exp = expected_decode(l, t)
            for b, v, mem in it.rets:
                for k, x in enumerate(out_lanes(it, mem)):
                    s, d = cmp_decode_lane(it, x[1] if x[0] == 'F' else None, exp[k])
                    if s == 'undecided' and untouched(it, mem, 'this', 8*k, 8):
                        s, d = 'violation', 'the component keeps the value that it had before'
                    r.put(s, 'decode-value', '%s %s' % (tag, 'xyzw'[k]), d, wr_at(it, 'this', 8*k))
    r.need('decode-value', 240)


def c02(ws, r):
    c = Codec(ws, ('enc',))
    for h in c.hw:
        for l, t in PAIRS:
            if h == 1 and LAYOUTS[l][2] != 16:
                continue
            tag = '%s/%s%s' % (l, t, ' hw-half' if h else ' sw-half' if LAYOUTS[l][2] == 16 and t == 'Float' else '')
            try:
                it = c.interp('enc', h, l, t)
            except Undecided as e:
                r.und('encode-value', tag, str(e))
                continue
            r.count('specialised encoders')
            r.count('abstract instructions', len(it.val))
            r.count('float-to-integer conversions', sum(1 for i in it.fn.all() if i.op in ('fptosi', 'fptoui')))
            rv = retvals(it)
            if False in rv:
                r.bad('encode-accepts', tag, 'a valid element is rejected', locf(c, 'enc'))
                continue
            r.put('ok' if rv and set(rv) == {True} else 'undecided', 'encode-accepts', tag, 'returns true')
            fields, size, w = LAYOUTS[l]
            for b, v, mem in it.rets:
                if fields is None:
                    for s, d in cmp_encode_packed(it, mem, l):
                        r.put(s, 'encode-value', tag + ' ' + d[:11], d, wr(it, 'out'))
                    continue
                for lane, off, fw in fields:
                    inst = '%s %s' % (tag, 'xyzw'[lane])
                    if t == 'Float':
                        s, d = cmp_encode_float(it, mem, lane, off, fw)
                    else:
                        s, d = enc_field(it, mem, lane, off, fw, t)
                        if s == 'ok' and it.lossy:
                            s, d = 'violation', 'the value is rounded to float before it is converted'
                    r.put(s, 'encode-value', inst, d, wr_at(it, 'out', off//8))
    r.need('encode-value', 150)


def enc_field(it, mem, lane, off, fw, t):
    raw = [mem.get(('out', (off + i)//8)) for i in range(fw)]
    if any(b is not None and b[0] == 'U' for b in raw) or any(
            ('out', (off + i)//8) not in mem for i in range(fw)):
        return 'violation', 'bits of the component are never given a value'
    if all(b is not None and b[0] == 'P' for b in raw):
        return 'violation', 'stores a floating point value'
    fe = field_expr(it, mem_bits(mem, off, fw))
    if fe[0] == 'unknown':
        return 'undecided', 'bits unknown'
    if fe[0] == 'const':
        return 'violation', 'constant %d, does not depend on the component' % fe[1]
    if fe[0] == 'mixed':
        return 'violation', fe[1]
    return cmp_encode_field(fe[1], fe[2], lane, t, fw)


def c03(ws, r):
    c = Codec(ws, ('dec', 'enc'), extra=True)
    for h in c.hw:
        for d in ('dec', 'enc'):
            base = 'in' if d == 'dec' else 'out'
            for l in c.Ls:
                for t in c.Ts:
                    if h == 1 and not (l in LAYOUTS and LAYOUTS[l][2] == 16):
                        continue
                    known = l in LAYOUTS and t in TYPES
                    ok = known and valid(l, t)
                    tag = '%s %s/%s%s' % ('fromData' if d == 'dec' else 'toData', l, t, ' hw' if h else '')
                    # null pointer: rejected, nothing touched
                    try:
                        it = c.interp(d, h, l, t, null=True)
                        rv = retvals(it)
                        acc = [x for x in it.reads + it.writes if x[0] == 'null']
                        if True in rv:
                            r.bad('null-rejected', tag, 'reports success for a null pointer', locf(c, d))
                        elif acc:
                            r.bad('null-rejected', tag, 'accesses a null pointer', acc[0][3].where())
                        else:
                            r.put('ok' if set(rv) == {False} else 'undecided', 'null-rejected', tag)
                    except Undecided as e:
                        r.und('null-rejected', tag, str(e))
                    try:
                        it = c.interp(d, h, l, t)
                    except Undecided as e:
                        r.und('extent', tag, str(e))
                        continue
                    r.count('specialised codecs')
                    r.count('memory accesses', len(it.reads) + len(it.writes))
                    rv = retvals(it)
                    und = list(it.notes)
                    lst = it.reads + it.writes
                    mine = [x for x in lst if x[0] == base]
                    if not known:
                        if True in rv:
                            # 16-bit layouts accept any type enumerator in isElementValid, but not here
                            r.bad('invalid-rejected', tag, 'accepts an invalid layout or type', locf(c, d))
                        else:
                            r.put('ok' if set(rv) == {False} else 'undecided', 'invalid-rejected', tag)
                        bad = [x for x in it.writes if x[0] in ('out',)]
                        if bad and set(rv) == {False}:
                            r.bad('invalid-untouched', tag, 'writes the output although it is rejected', bad[0][3].where())
                        continue
                    size = LAYOUTS[l][1]
                    oob = [x for x in mine if x[1] is not None and x[2] is not None and (x[1] < 0 or x[1] + x[2] > size)]
                    for x in oob[:1]:
                        r.bad('extent', tag, 'accesses bytes [%d,%d) of a %d byte element' % (x[1], x[1] + x[2], size),
                              x[3].where())
                    unk = [x for x in mine if x[1] is None or x[2] is None]
                    if not oob:
                        r.put('undecided' if unk or und else 'ok', 'extent', tag,
                              '%d accesses within [0,%d)' % (len(mine), size) if not und else und[0])
                    th = [x for x in lst if x[0] == 'this' and x[1] is not None and (x[1] < 0 or x[1] + x[2] > 32)]
                    for x in th[:1]:
                        r.bad('value-extent', tag, 'accesses outside the four components', x[3].where())
                    if not ok:
                        if set(rv) == {False}:
                            w = [x for x in it.writes if x[0] == 'out']
                            if w:
                                r.bad('invalid-untouched', tag, 'writes the output although it is rejected', w[0][3].where())
                            else:
                                r.ok('invalid-untouched', tag)
                        continue
                    if d == 'enc' and not unk and not und and set(rv) == {True}:
                        cov = set()
                        for x in it.writes:
                            if x[0] == 'out':
                                cov |= set(range(x[1], x[1] + x[2]))
                        miss = [k for k in range(size) if k not in cov]
                        if miss:
                            r.bad('writes-whole-element', tag, 'byte %d of the element is never written' % miss[0], locf(c, d))
                        else:
                            r.ok('writes-whole-element', tag, '%d bytes' % size)
                    if d == 'enc':
                        w = [x for x in it.writes if x[0] == 'this']
                        if w:
                            r.bad('encode-const', tag, 'modifies the value being encoded', w[0][3].where())
    r.need('extent', 180)
    r.need('null-rejected', 180)


def c04(ws, r):
    """decode o encode: encode(decode(n)) == n for every field value n of every integer layout;
    floats: same lane, same bytes, matching conversions."""
    c = Codec(ws, ('dec', 'enc'))
    for h in c.hw:
        for l, t in PAIRS:
            if h == 1 and LAYOUTS[l][2] != 16:
                continue
            tag = '%s/%s%s' % (l, t, ' hw-half' if h else '')
            try:
                di = c.interp('dec', h, l, t)
                ei = c.interp('enc', h, l, t)
            except Undecided as e:
                r.und('round-trip', tag, str(e))
                continue
            if not (set(retvals(di)) == set(retvals(ei)) == {True}) or len(di.rets) != 1 or len(ei.rets) != 1:
                r.und('round-trip', tag, 'not a single success path')
                continue
            r.count('encode/decode pairs composed')
            lanes = out_lanes(di, di.rets[0][2])
            em = ei.rets[0][2]
            fields, size, w = LAYOUTS[l]
            if fields is None or t == 'Float':
                rt_float(r, l, t, tag, di, ei, lanes, em)
                continue
            for k in range(4):
                n = lanes[k][1] if lanes[k][0] == 'F' else None
                if n is None:
                    r.und('round-trip', tag, 'decoded %s unknown' % 'xyzw'[k])
                    continue
                if n[0] == 'k' or (n[0] == 'aff' and not n[1]):
                    continue
                if n[0] != 'aff':
                    r.bad('round-trip', tag + ' ' + 'xyzw'[k], 'decoded by reinterpretation, encoded as integer', wr_at(di, 'this', 8*k))
                    continue
                s, d = compose(ei, em, k, dict(n[1]), n[2])
                r.put(s, 'round-trip', tag + ' ' + 'xyzw'[k], d, wr_at(ei, 'out', 0))
    r.need('round-trip', 120)


def compose(ei, em, k, d, c):
    """Decoded component k = sum d[bit]*bit + c.  Its bits must be contiguous, weights a power ladder
    (top one possibly negative); the encoder's field on those very bits must restore the integer."""
    pos = sorted(d, key=lambda b: b[0][1]*8 + b[1])
    p = [b[0][1]*8 + b[1] for b in pos]
    w = len(p)
    if p != list(range(p[0], p[0] + w)):
        return 'violation', 'decoded bits are not contiguous'
    base = d[pos[0]]
    sgn = d[pos[-1]] < 0 < base
    for i, b in enumerate(pos):
        want = base*(1 << i)*(-1 if sgn and i == w - 1 else 1)
        if not close(d[b], want, abs(want)):
            return 'undecided', 'weights of the decoded bits are not binary'
    fe = field_expr(ei, mem_bits(em, p[0], w))
    if fe[0] == 'unknown':
        return 'undecided', 'encoded bits unknown'
    if fe[0] != 'E':
        return 'violation', 'the bits decoded as component %s are not written from it (%s)' % ('xyzw'[k], fe[1])
    pw, add = fe[1], fe[2]
    if pw.lane != k:
        return 'violation', 'the bits decoded as component %s are encoded from another component' % 'xyzw'[k]
    lo_n, hi_n = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sgn else (0, (1 << w) - 1)
    mod = 1 << w
    checked = 0

    # x(n) = base*n + c, increasing in n; exact integer arithmetic on the double grid needs |n|<2^53
    def x(n):
        return base*n + c
    prev = lo_n
    for lo, hi, v in pw.pieces:
        # integers n with x(n) in [lo, hi]; widen by tolerance at the joins
        nlo = lo_n if lo == -INF else max(lo_n, _ceil((Fr(lo) - c)/base - Fr(1, 10**6)))
        nhi = hi_n if hi == INF else min(hi_n, _floor((Fr(hi) - c)/base + Fr(1, 10**6)))
        if w == 64:
            # doubles do not hold every 64-bit integer: restrict to those exactly representable
            nlo, nhi = max(nlo, -(1 << 53)), min(nhi, 1 << 53)
        if nlo > nhi:
            continue
        if v is None:
            return 'undecided', 'encoder unknown on part of the range'
        if v[0] in ('bad', 'nan', 'inf'):
            return 'violation', 'encoding decoded value %s is undefined' % float(x(nlo))
        for n in (nlo, nhi):
            y = x(n)
            q = near(v)
            if q is None:
                return 'undecided', 'encoder not integral'
            if q[0] == 'trunc':
                e = Fr(rnd('trunc', q[1]*y + q[2] + Fr(1, 10**7))) + q[3]
                diff = e + add - n
                exact = True
            else:
                diff = q[0]*y + q[1] + add - n
                exact = q[0] == 0
            diff -= mod*round(diff/mod)
            # a boundary value may belong to the neighbouring piece
            lim = Fr(1, 4) if not exact else Fr(1, 4)
            if abs(diff) >= lim:
                # value sits on the join between pieces: accept if the neighbour restores it
                if on_join(pw, y):
                    continue
                return 'violation', 'field value %d decodes to %.9g which encodes to %d' % (
                    n, float(y), (n + round(diff)) % mod)
            checked += 1
        if v[0] == 'lin' and v[1] == 0 and nhi - nlo > 1 and not (nlo == nhi):
            return 'violation', 'field values %d..%d all encode to one value' % (nlo, nhi)
    return ('ok', 'all %d-bit field values restored' % w) if checked else ('undecided', 'no piece covered')


def on_join(pw, y):
    for lo, hi, v in pw.pieces:
        for z in (lo, hi):
            if z not in (INF, -INF) and abs(Fr(z) - y) <= Fr(1, 10**9)*max(1, abs(y)):
                return True
    return False


def _ceil(q):
    return -((-q.numerator)//q.denominator)


def _floor(q):
    return q.numerator//q.denominator


def rt_float(r, l, t, tag, di, ei, lanes, em):
    fields, size, w = LAYOUTS[l]
    if fields is None:
        dn = {di.opq[x[1][1]][1].split('(')[0] for x in lanes[:3] if x[0] == 'F' and x[1] and x[1][0] == 'o'}
        en = {ei.opq[b[1]][1].split('(')[0] for b in [em.get(('out', 0))] if b and b[0] == 'Q'}
        if not dn or not en:
            r.und('round-trip', tag, 'conversion functions not identified')
            return
        a, b = PACKED[l]
        if (en == {a}) == (dn == {b}) and len(dn) == 1:
            r.ok('round-trip', tag, 'inverse functions %s/%s' % (en, dn))
        else:
            r.bad('round-trip', tag, 'encoder %s and decoder %s are not inverse' % (en, dn), wr(ei, 'out'))
        for i, x in enumerate(lanes[:3]):
            if x[0] == 'F' and x[1] and x[1][0] == 'o' and x[1][2] != 4*i:
                r.bad('round-trip', '%s %s' % (tag, 'xyz'[i]), 'decoded from component %d' % (x[1][2]//4), wr_at(di, 'this', 8*i))
        return
    exp = expected_decode(l, t)
    for lane, off, fw in fields:
        # the bits the decoder reads for this component ...
        n = lanes[lane][1] if lanes[lane][0] == 'F' else None
        s, d = cmp_decode_lane(di, n, exp[lane])
        s2, d2 = cmp_encode_float(ei, em, lane, off, fw)
        inst = '%s %s' % (tag, 'xyzw'[lane])
        if 'undecided' in (s, s2):
            r.und('round-trip', inst, d or d2)
        elif 'violation' in (s, s2):
            r.bad('round-trip', inst, 'decode: %s; encode: %s' % (d, d2), wr_at(ei, 'out', off//8))
        else:
            r.ok('round-trip', inst, d + ' <-> ' + d2)
