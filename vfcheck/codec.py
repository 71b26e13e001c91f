"""Reference tables and comparison of derived codec functions with them.

The tables below state the documented layout of each element (VertexFormat.h: "X with 8 bits",
"WXYZ with 2, 10, 10, 10 bits", ...; components named most-significant first for packed layouts).
They are keyed by enumerator NAME; values are read from the analysed program.
"""
from fractions import Fraction as Fr
from .absbits import *
from .ir import Module
from .build import AnalysisError

TYPES = ['UNorm', 'SNorm', 'UInt', 'SInt', 'Float']


def _simple(n, w):
    return [(i, i*w, w) for i in range(n)]


LAYOUTS = {}
for _n, _nm in ((8, 'X8 X8Y8 X8Y8Z8 X8Y8Z8W8'), (16, 'X16 X16Y16 X16Y16Z16 X16Y16Z16W16'),
                (32, 'X32 X32Y32 X32Y32Z32 X32Y32Z32W32'), (64, 'X64 X64Y64 X64Y64Z64 X64Y64Z64W64')):
    for _k, _x in enumerate(_nm.split()):
        LAYOUTS[_x] = (_simple(_k + 1, _n), (_k + 1)*_n//8, _n)
LAYOUTS['W2X10Y10Z10'] = ([(0, 20, 10), (1, 10, 10), (2, 0, 10), (3, 30, 2)], 4, 10)
LAYOUTS['W2Z10Y10X10'] = ([(0, 0, 10), (1, 10, 10), (2, 20, 10), (3, 30, 2)], 4, 10)
LAYOUTS['Z10Y11X11_UFloat'] = (None, 4, 0)
LAYOUTS['E5Z9Y9X9_UFloat'] = (None, 4, 0)
PACKED = {'Z10Y11X11_UFloat': ('glm::packF2x11_1x10', 'glm::unpackF2x11_1x10'),
          'E5Z9Y9X9_UFloat': ('glm::packF3x9_E1x5', 'glm::unpackF3x9_E1x5')}


def valid(l, t):
    f, _, w = LAYOUTS[l]
    if f is None:
        return t == 'Float'
    if w in (8, 10):
        return t != 'Float'
    if w == 16:
        return True
    return t in ('UInt', 'SInt', 'Float')


PAIRS = [(l, t) for l in LAYOUTS for t in TYPES if valid(l, t)]
INVALID = [(l, t) for l in LAYOUTS for t in TYPES if not valid(l, t)]

FROM = 'vfc::VertexValue::fromData(void const*, vfc::ElementLayout, vfc::ElementType)'
TO = 'vfc::VertexValue::toData(void*, vfc::ElementLayout, vfc::ElementType) const'
POST = 'function(sroa,early-cse,sccp,simplifycfg,instsimplify)'
FINAL = ('function(loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),'
         'loop-unroll<O3;full-unroll-max=256;no-partial;no-runtime;no-peeling>,'
         'sroa,early-cse,sccp,simplifycfg,instsimplify)')
KEEP = ['^glm::(un)?pack', '^glm::detail', '^vfc::Converter']


class Codec:
    """Specialised clones of fromData/toData for every (layout, type), for both values of the
    run-time half-float capability flag, and their abstract interpretation."""

    def __init__(self, ws, dirs=('dec', 'enc'), extra=False, hw=(0, 1)):
        en = ws.ir(ws.lib_sources(), spec=[], keep=KEEP, inline=[], roots=[], emit=['^vfc::isElementValid'])
        m0 = Module(en)
        self.L = m0.enum('vfc::ElementLayout')
        self.T = m0.enum('vfc::ElementType')
        for l in LAYOUTS:
            if l not in self.L:
                raise AnalysisError('enumerator ElementLayout::%s not found' % l)
        for t in TYPES:
            if t not in self.T:
                raise AnalysisError('enumerator ElementType::%s not found' % t)
        self.mods = {}
        self.hw = hw
        Ls = {l: self.L[l] for l in LAYOUTS}
        Ts = {t: self.T[t] for t in TYPES}
        if extra:
            for k in (-1, 20, 77, -128):
                if k not in Ls.values():
                    Ls['#%d' % k] = k
            for k in (-1, 5, -128):
                if k not in Ts.values():
                    Ts['#%d' % k] = k
        self.Ls, self.Ts = Ls, Ts
        for h in hw:
            spec = []
            for l, lv in Ls.items():
                for t, tv in Ts.items():
                    for d, fn in (('dec', FROM), ('enc', TO)):
                        if d in dirs:
                            spec.append(dict(fn=fn, name='%s|%s|%s' % (d, l, t), args={'2': lv, '3': tv},
                                             globals={'vfc::hasHardwareHalfFloat': h}))
            self.mods[h] = Module(ws.ir(ws.lib_sources(), spec=spec, keep=KEEP, inline=[], roots=[],
                                        post=POST, final=FINAL))

    def interp(self, d, h, l, t, null=False):
        m = self.mods[h]
        f = m.funcs.get('%s|%s|%s' % (d, l, t))
        if f is None:
            raise AnalysisError('%s not found in the library' % (FROM if d == 'dec' else TO))
        mem = {}
        if d == 'dec':
            for k in range(64):
                mem[('in', k)] = ('B', tuple((('in', k), b, False) for b in range(8)))
            dp = ('P', 'in', 0)
        else:
            for k in range(4):
                n = ('pw', PW.ident(k))
                for b in range(8):
                    mem[('this', 8*k + b)] = ('P', n, 'double', b)
            dp = ('P', 'out', 0)
        if null:
            dp = ('P', 'null', 0)
        lt = [const_int(8, self.Ls[l]), const_int(8, self.Ts[t])]
        return Interp(m, f, [('P', 'this', 0), dp] + lt).run(mem)


def retvals(it):
    """Set of possible constant return values: True/False/None(unknown), with PW for partial."""
    out = []
    for b, v, mem in getattr(it, 'rets', []):
        if v is None:
            out.append(None)
        elif v[0] == 'C' and isinstance(v[1], PW):
            vals = {p[2] for p in v[1].pieces} | {v[1].nan}
            out += list(vals)
        elif v[0] == 'I' and int_const(v) is not None:
            out.append(bool(int_const(v)))
        else:
            out.append(None)
    return out


# ------------------------------------------------------------------ decode
def bits_of_field(off, w):
    return [(('in', (off + i)//8), (off + i) % 8) for i in range(w)]


def expected_aff(off, w, t):
    lits = bits_of_field(off, w)
    M = (1 << w) - 1
    d, c = {}, Fr(0)
    if t == 'UNorm':
        d = {b: Fr(1 << i, M) for i, b in enumerate(lits)}
    elif t == 'SNorm':
        # ((n + 2^(w-1)) mod 2^w)/M*2-1 == (2's complement n + 2^(w-1))*2/M - 1
        d = {b: Fr(2*(1 << i), M) for i, b in enumerate(lits)}
        d[lits[-1]] = -d[lits[-1]]
        c = Fr(2*(1 << (w - 1)), M) - 1
    elif t == 'UInt':
        d = {b: Fr(1 << i) for i, b in enumerate(lits)}
    elif t == 'SInt':
        d = {b: Fr(1 << i) for i, b in enumerate(lits)}
        d[lits[-1]] = -d[lits[-1]]
    return d, c


def close(a, b, scale):
    return abs(a - b) <= Fr(1, 10**9)*scale


def cmp_decode_lane(it, node, exp):
    """exp: ('aff',d,c) ('const',x) ('bits',fmt,lits) ('half',lits) ('packed',fn,comp)"""
    if node is None:
        return 'undecided', 'value not expressible'
    if exp[0] == 'const':
        if node[0] == 'k':
            return ('ok', '') if node[2] == exp[1] else ('violation', 'is %r, expected %r' % (node[2], exp[1]))
        if node[0] == 'aff' and not node[1]:
            return ('ok', '') if node[2] == exp[1] else ('violation', 'is %r, expected %r' % (node[2], exp[1]))
        return ('violation', 'depends on the input, expected the constant %r' % exp[1]) \
            if node[0] in ('aff', 'fb', 'o', 'pw') else ('undecided', node[0])
    if exp[0] == 'aff':
        if node[0] == 'k':
            return 'violation', 'is the constant %r' % (node[2],)
        if node[0] in ('fb', 'o'):
            return 'violation', 'bits are reinterpreted instead of converted'
        if node[0] == 'conv' and node[2] is not None and node[2][0] == 'aff':
            if not short_integer(node[2]):
                s, why = cmp_decode_lane(it, node[2], exp)
                return ('violation', 'loses precision through ' + node[1]) if s == 'ok' else (s, why)
            node = node[2]
        if node[0] != 'aff':
            return 'undecided', node[0]
        d = dict(node[1])
        c = node[2]
        sc = max(max((abs(v) for v in exp[1].values()), default=Fr(1)), abs(exp[2]))
        for k in set(d) | set(exp[1]):
            a, b = d.get(k, Fr(0)), exp[1].get(k, Fr(0))
            if not close(a, b, max(abs(b), sc*Fr(1, 10**6))):
                return 'violation', 'weight of input byte %d bit %d is %.9g, expected %.9g' % (k[0][1], k[1], a, b)
        if not close(c, exp[2], sc):
            return 'violation', 'offset is %.9g, expected %.9g' % (c, exp[2])
        return 'ok', 'affine in %d bits' % len(d)
    if exp[0] == 'bits':
        want = tuple((b[0], b[1], False) for b in exp[2])
        if node[0] == 'fb':
            if node[1] == exp[1] and node[2] == want:
                return 'ok', 'reinterprets bits as ' + exp[1]
            return 'violation', 'reinterprets other bits or another format'
        if node[0] in ('aff', 'k', 'o'):
            return 'violation', 'not a reinterpretation of the element bits as ' + exp[1]
        if node[0] == 'conv':
            return 'violation', 'loses precision through ' + node[1]
        return 'undecided', node[0]
    if exp[0] == 'half':
        want = tuple((b[0], b[1], False) for b in exp[1])
        if node[0] == 'fb':
            if node[1] == 'half' and node[2] == want:
                return 'ok', 'fpext of the lane bits as half'
            return 'violation', 'reinterprets other bits or another format (%s)' % node[1]
        if node[0] == 'o':
            ins, dem, av = it.opq[node[1]]
            if 'alf' not in dem and 'vcvtph2ps' not in dem:
                return 'undecided', 'through ' + dem
            byt, comp = [], 0
            a = av[-1]
            if a[0] == 'MEM':
                byt = a[1]
                lane = node[2]//4
                byt = byt[2*lane:2*lane + 2]
                got = sum([list(b[1]) if b is not None and b[0] == 'B' else [None]*8 for b in byt], [])
            elif a[0] == 'I':
                lane = node[2]//4
                got = list(a[2])[16*lane:16*lane + 16]
            elif a[0] == 'V':
                lane = node[2]//4
                el = a[1][lane] if lane < len(a[1]) else ('U',)
                got = list(el[2]) if el[0] == 'I' else [None]
            else:
                return 'undecided', 'argument shape'
            if tuple(got) == want:
                return 'ok', 'half decode of the lane bits by ' + dem.split('(')[0]
            if None in got or len(got) != 16:
                return 'undecided', 'argument bits unknown'
            return 'violation', 'half decode of other bits'
        if node[0] in ('aff', 'k'):
            return 'violation', 'not a half float decode'
        return 'undecided', node[0]
    if exp[0] == 'packed':
        if node[0] == 'o':
            ins, dem, av = it.opq[node[1]]
            if not dem.startswith(exp[1]):
                return ('violation', 'decoded by ' + dem) if dem.startswith('glm::unpack') else ('undecided', dem)
            want = tuple((('in', i//8), i % 8, False) for i in range(32))
            if av and av[-1][0] == 'I' and tuple(av[-1][2]) != want:
                return ('undecided', 'argument unknown') if None in av[-1][2] else \
                    ('violation', 'argument is not the element word')
            if node[2] != 4*exp[2]:
                return 'violation', 'takes component %d, expected %d' % (node[2]//4, exp[2])
            return 'ok', dem.split('(')[0]
        if node[0] in ('aff', 'k', 'fb'):
            return 'violation', 'not decoded by ' + exp[1]
        return 'undecided', node[0]
    return 'undecided', ''


def expected_decode(l, t):
    fields, size, w = LAYOUTS[l]
    exp = [('const', 0), ('const', 0), ('const', 0), ('const', 1)]
    if fields is None:
        for i in range(3):
            exp[i] = ('packed', PACKED[l][1], i)
        return exp
    for lane, off, fw in fields:
        if t == 'Float':
            exp[lane] = ('half', bits_of_field(off, fw)) if fw == 16 else \
                ('bits', {32: 'float', 64: 'double'}[fw], bits_of_field(off, fw))
        else:
            d, c = expected_aff(off, fw, t)
            exp[lane] = ('aff', d, c)
    return exp


def out_lanes(it, mem):
    return [it.from_bytes(it.load_mem(mem, 'this', 8*k, 8), 'double', 8) for k in range(4)]


# ------------------------------------------------------------------ encode
def field_expr(it, bits):
    """Identify the expression whose low bits fill a field.
    -> ('E', PW, add) | ('const', n) | ('mixed', why) | ('unknown',)"""
    for b in bits:
        if isinstance(b, tuple) and b[0][0] == 'X':
            return ('mixed', 'bits of components %s are combined' % ' and '.join('xyzw'[k] for k in b[0][1]))
    if any(b is None for b in bits):
        return ('unknown',)
    if all(isc(b) for b in bits):
        return ('const', sum(b << i for i, b in enumerate(bits)))
    e = None
    for b in bits:
        if isinstance(b, tuple):
            if b[0][0] != 'E':
                return ('unknown',)
            if e is None:
                e = b[0]
    w = len(bits)
    canon = it.expr_bits(it.exprs[e[1]][0], max(w, it.exprs[e[1]][1]))[2][:w]
    canon = list(canon)
    # canonical bits are those of expression e (same table key)
    if list(bits) == canon:
        return ('E', it.exprs[e[1]][0], 0)
    if list(bits[:-1]) == canon[:-1] and bits[-1] == bneg(canon[-1]):
        return ('E', it.exprs[e[1]][0], 1 << (w - 1))
    # bits beyond a narrower expression may legitimately be zero or sign copies
    return ('mixed', 'bits of the field do not come from one value in order: %s' % fmt_bits(bits))


def fmt_bits(bits):
    return ' '.join('%s' % b if not isinstance(b, tuple) else '%s%s.%d' % ('~' if b[2] else '', b[0][1], b[1])
                    for b in bits[:12])


def near(v):
    """Piece as nearest(a*x+b)+const, i.e. (a, b_effective) ignoring ties; None if not integral-valued."""
    if v[0] == 'lin':
        if v[1] == 0:
            return (Fr(0), v[2])
        return None
    _, m, a, b, c = v
    if m in ('round', 'rne'):
        return (a, b + c)
    if m == 'floor':
        return (a, b + c - Fr(1, 2))
    if m == 'ceil':
        return (a, b + c + Fr(1, 2))
    return ('trunc', a, b, c)


def encode_ref(t, w):
    """Reference piecewise function (before modulo 2^w): list of (lo,hi,val)."""
    M = (1 << w) - 1
    H = 1 << (w - 1)
    if t == 'UNorm':
        a, b, lo, hi, vlo, vhi = Fr(M), Fr(0), 0.0, 1.0, 0, M
        off = 0
    elif t == 'SNorm':
        a, b, lo, hi, vlo, vhi = Fr(M, 2), Fr(M, 2), -1.0, 1.0, 0, M
        off = -H
    elif t == 'UInt':
        a, b, lo, hi, vlo, vhi, off = Fr(1), Fr(0), 0.0, float(M), 0, M, 0
    else:
        a, b, lo, hi, vlo, vhi, off = Fr(1), Fr(0), float(-H), float(H - 1), -H, H - 1, 0

    def ref(x):
        """exact unrounded reference at double x"""
        if x == INF:
            y = Fr(vhi)
        elif x == -INF:
            y = Fr(vlo)
        else:
            y = min(max(a*Fr(x) + b, Fr(vlo)), Fr(vhi))
        return y + off
    lin = ('lin', a, b + off)
    return ref, (lo, hi, lin), (vlo + off, vhi + off)


def cmp_encode_field(pw, add, lane, t, w):
    """Compare a derived field value with the reference, modulo 2^w."""
    mod = 1 << w
    ref, (clo, chi, lin), (vlo, vhi) = encode_ref(t, w)
    if pw.lane is None:
        return 'violation', 'constant, does not depend on component %d' % lane
    if pw.lane != lane:
        return 'violation', 'encodes component %d, expected %d' % (pw.lane, lane)
    und = None

    def piece_range(v, x, y):
        p, q = ev(v, x), ev(v, y)
        return p, q
    cuts = sorted({clo, nxt(chi)})
    for lo, hi, v in pw.pieces:
        if v is None:
            und = 'value unknown on [%.17g, %.17g]' % (lo, hi)
            continue
        if v[0] in ('bad', 'nan', 'inf'):
            return 'violation', 'undefined conversion for inputs in [%.17g, %.17g]' % (lo, hi)
        sub, s = [], lo
        for c in cuts:
            if s < c <= hi:
                sub.append((s, prv(c)))
                s = c
        sub.append((s, hi))
        for x, y in sub:
            n = near(v)
            if n is None:
                und = 'not rounded to an integer on [%.17g, %.17g]' % (x, y)
                continue
            if n[0] == 'trunc':
                _, ta, tb, tc = n
                p, q = (ta*Fr(z) + tb if z not in (INF, -INF) else None for z in (x, y))
                if p is None or q is None:
                    und = 'truncation of unbounded value'
                    continue
                if min(p, q) >= 0:
                    n = (ta, tb + tc - Fr(1, 2))
                elif max(p, q) <= 0:
                    n = (ta, tb + tc + Fr(1, 2))
                else:
                    return 'violation', 'truncates toward zero around component value %.9g' % float(-tb/ta if ta else 0)
            # compare n(x) = nearest(a x + b) with nearest(ref(x)) on [x,y]
            a, b = n
            for z in (x, y):
                if z in (INF, -INF):
                    if a != 0:
                        return 'violation', 'unbounded for infinite input'
                    val = b
                else:
                    val = a*Fr(z) + b
                r = ref(z)
                diff = val + add - r
                diff = diff - mod*round(diff/mod)
                tol = Fr(1, 1000) + abs(val)*Fr(1, 10**12)
                if a == 0:
                    # a constant piece is already rounded
                    tol += Fr(1, 2)
                short = y - x <= 1e-9*max(1.0, abs(x)) if INF not in (abs(x), abs(y)) else False
                if short:
                    tol += 1
                if abs(diff) > tol:
                    return 'violation', 'component value %.17g encodes to %s, expected nearest of %.6f (mod 2^%d)' % (
                        z, float(round(val + add)), float(r), w)
            # between the endpoints both sides are affine (ref is affine inside a clamp region)
    if pw.nan is None:
        und = und or 'NaN result unknown'
    elif pw.nan[0] in ('bad', 'nan', 'inf'):
        return 'violation', 'undefined conversion for NaN'
    if und:
        return 'undecided', und
    return 'ok', '%d pieces over all doubles' % len(pw.pieces)


def mem_bits(mem, off, w):
    """Bits [off, off+w) of the output object."""
    out = []
    for i in range(off, off + w):
        b = mem.get(('out', i//8))
        if b is None or b[0] == 'U':
            out.append(None)
        elif b[0] == 'B':
            out.append(b[1][i % 8])
        else:
            out.append((('BY', b), i % 8, False))
    return out


def is_ident(pw, lane, lo=-INF, hi=INF):
    """PW equals the lane itself wherever it intersects [lo,hi]."""
    if pw.lane != lane:
        return False
    for a, b, v in pw.pieces:
        if b < lo or a > hi:
            continue
        if v is None:
            return None
        if v != ('lin', Fr(1), Fr(0)):
            return False
    return True


def cmp_float_node(node, fmt, lane, nonneg=False):
    """Node stored as `fmt` must be the lane converted to fmt (nonneg: negatives become 0)."""
    if node is None:
        return 'undecided', 'unknown value'
    if node[0] == 'k':
        return 'violation', 'constant %r' % (node[2],)
    steps = []
    n = node
    while n is not None and n[0] == 'conv':
        steps.append(n[1])
        n = n[2]
    if n is None or n[0] != 'pw':
        return 'undecided', 'unknown value'
    order = {'half': 0, 'float': 1, 'double': 2}
    if any(order[s] < order[fmt] for s in steps):
        return 'violation', 'loses precision through ' + steps[-1]
    pw = n[1]
    if pw.lane is None:
        return 'violation', 'constant'
    if pw.lane != lane:
        return 'violation', 'encodes component %d, expected %d' % (pw.lane, lane)
    if nonneg:
        for a, b, v in pw.pieces:
            if v is None:
                return 'undecided', ''
            if a < 0 <= b and b > 0 and v == ('lin', Fr(1), Fr(0)) and a < -1e-300:
                return 'violation', 'negative component is not limited to 0'
            if b < 0 and v != ('lin', Fr(0), Fr(0)) and b < -1e-300:
                return 'violation', 'negative component is not limited to 0'
            if a >= 0 and b > 0 and v != ('lin', Fr(1), Fr(0)) and a < 65000:
                return 'violation', 'component in [%g,%g] is altered' % (a, b)
        return 'ok', 'max(component,0)'
    lim = {'half': 65504.0, 'float': 3.4028234663852886e38, 'double': INF}[fmt]
    r = is_ident(pw, lane, -lim, lim)
    if r is None:
        return 'undecided', ''
    if not r:
        return 'violation', 'component is altered before conversion'
    return 'ok', 'component %d as %s' % (lane, fmt)


def cmp_encode_float(it, mem, lane, off, w):
    fmt = {16: 'half', 32: 'float', 64: 'double'}[w]
    n = w//8
    bs = [mem.get(('out', off//8 + k)) for k in range(n)]
    if any(b is None for b in bs):
        return 'undecided', 'bytes unknown'
    if any(b[0] == 'U' for b in bs):
        return 'violation', 'bytes are never given a value'
    if all(b[0] == 'P' for b in bs):
        if not all(b == ('P', bs[0][1], bs[0][2], k) for k, b in enumerate(bs)):
            return 'violation', 'bytes of the component are not contiguous'
        if bs[0][2] != fmt:
            return 'violation', 'stored as %s, expected %s' % (bs[0][2], fmt)
        return cmp_float_node(bs[0][1], fmt, lane)
    if fmt == 'half' and all(b[0] == 'Q' and b[1] == bs[0][1] and b[2] == bs[0][2] + k for k, b in enumerate(bs)):
        ins, dem, av = it.opq[bs[0][1]]
        el = bs[0][2]//2
        if 'vcvtps2ph' in dem:
            if av[0][0] != 'V':
                return 'undecided', 'vector argument unknown'
            imm = int_const(av[1]) if len(av) > 1 and av[1][0] == 'I' else None
            if imm is not None and (imm & 7) not in (0, 4):
                return 'violation', 'hardware conversion does not round to nearest (immediate %d)' % imm
            v = av[0][1][el]
        elif 'alf' in dem:
            if av[-1][0] == 'MEM':
                v = it.from_bytes(av[-1][1][4*el:4*el + 4], 'float', 4) if len(av[-1][1]) >= 4*el + 4 else ('T',)
            else:
                v = av[-1]
        else:
            return 'undecided', 'through ' + dem
        if v[0] == 'U':
            return 'violation', 'component %d of the conversion is never given a value' % el
        if v[0] != 'F':
            return 'undecided', 'argument unknown'
        s, d = cmp_float_node(v[1], 'half', lane)
        return s, d + ' by ' + dem.split('(')[0]
    if all(b[0] == 'B' for b in bs):
        bits = sum([list(b[1]) for b in bs], [])
        if None in bits:
            return 'undecided', 'bits unknown'
        return 'violation', 'not a %s conversion of the component' % fmt
    return 'undecided', 'mixed bytes'


def cmp_encode_packed(it, mem, l):
    bs = [mem.get(('out', k)) for k in range(4)]
    if any(b is None for b in bs):
        return [('undecided', 'bytes unknown')]
    if all(b[0] == 'Q' and b[1] == bs[0][1] and b[2] == k for k, b in enumerate(bs)):
        ins, dem, av = it.opq[bs[0][1]]
        if not dem.startswith(PACKED[l][0]):
            return [('violation', 'encoded by ' + dem)] if dem.startswith('glm::pack') else [('undecided', dem)]
        a = av[-1]
        if a[0] != 'MEM' or len(a[1]) < 12:
            return [('undecided', 'argument unknown')]
        out = []
        for i in range(3):
            v = it.from_bytes(a[1][4*i:4*i + 4], 'float', 4)
            s, d = cmp_float_node(v[1] if v[0] == 'F' else None, 'float', i, nonneg=True)
            out.append((s, 'component %d: %s' % (i, d)))
        return out
    if all(b[0] == 'B' for b in bs) and all(isc(x) for b in bs for x in b[1]):
        return [('violation', 'writes a constant')]
    return [('undecided', 'not a direct result of ' + PACKED[l][0])]
