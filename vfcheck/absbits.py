"""Abstract interpreter for the straight-line (specialised, unrolled) codec functions.

Domains
  * integers: vectors of bits, each 0, 1, a (possibly negated) literal of an input bit, a bit of a
    piecewise integer expression of ONE input lane, or unknown;
  * reals of a decode: exact affine combinations of input bits, or re-interpreted input bits;
  * reals of an encode: piecewise affine / rounded-affine functions of one double lane, partitioned
    over closed intervals of doubles plus a NaN piece;  'bad' marks an undefined conversion;
  * memory: bytes of local arrays and of the output object.
Joins gate both sides with the branch condition relative to the immediate dominator; anything the
domains cannot express becomes unknown (None) and is reported as undecided, never as a violation.
"""
import math, struct
from fractions import Fraction as Fr

INF = float('inf')


class Undecided(Exception):
    pass


def nxt(x):
    return math.nextafter(x, INF)


def prv(x):
    return math.nextafter(x, -INF)


def dbl_ge(q):
    """Smallest double >= rational q."""
    f = _tofloat(q)
    if f == INF or f == -INF:
        return f if f == INF else -1.7976931348623157e308
    return f if Fr(f) >= q else nxt(f)


def dbl_gt(q):
    f = _tofloat(q)
    if f == INF:
        return f
    return f if Fr(f) > q else nxt(f)


def _tofloat(q):
    try:
        return float(q)
    except OverflowError:
        return INF if q > 0 else -INF


def cmp_threshold(val, k):
    """For val=('lin',a,b) or ('rnd',m,a,b,c) with a>0: (t_ge, t_gt) smallest doubles x such that
    val(x) >= k and val(x) > k."""
    if val[0] == 'lin':
        _, a, b = val
        q = (k - b)/a
        return dbl_ge(q), dbl_gt(q)
    _, m, a, b, c = val

    def ge(n):  # smallest x with mode(ax+b) >= n (integer n)
        if m == 'round':
            strict = n <= 0
            y = n - Fr(1, 2)
        elif m == 'floor':
            strict, y = False, Fr(n)
        elif m == 'ceil':
            strict, y = True, Fr(n) - 1
        elif m == 'trunc':
            strict, y = (False, Fr(n)) if n > 0 else (True, Fr(n) - 1)
        else:  # rne
            strict = n % 2 != 0
            y = n - Fr(1, 2)
        q = (y - b)/a
        return dbl_gt(q) if strict else dbl_ge(q)
    kk = k - c
    n_ge = math.ceil(kk)
    n_gt = math.floor(kk) + 1
    return ge(n_ge), ge(n_gt)


def ev(val, x):
    """Value of a piece function at double x (real arithmetic; +-inf propagate)."""
    if val[0] == 'lin':
        _, a, b = val
        if a == 0:
            return b
        if math.isinf(x):
            return x if a > 0 else -x
        return a*Fr(x) + b
    _, m, a, b, c = val
    if a == 0:
        y = b
    elif math.isinf(x):
        return x if a > 0 else -x
    else:
        y = a*Fr(x) + b
    return rnd(m, y) + c


def rnd(m, y):
    if m == 'round':
        return Fr(math.floor(y + Fr(1, 2))) if y >= 0 else Fr(math.ceil(y - Fr(1, 2)))
    if m == 'floor':
        return Fr(math.floor(y))
    if m == 'ceil':
        return Fr(math.ceil(y))
    if m == 'trunc':
        return Fr(math.trunc(y))
    return Fr(round(y))


def is_const(v):
    return v[0] in ('lin', 'rnd') and (v[1] == 0 if v[0] == 'lin' else v[2] == 0)


def norm(v):
    if v[0] == 'rnd' and v[2] == 0:
        return ('lin', Fr(0), rnd(v[1], v[3]) + v[4])
    return v


class PW:
    """Piecewise function of lane `lane` (None = constant).  pieces: [(lo,hi,val)], nan: val.
    val: ('lin',a,b) ('rnd',m,a,b,c) ('nan',) ('bad',) ('inf',s) None=unknown, or bool for conditions."""
    __slots__ = ('lane', 'pieces', 'nan')

    def __init__(self, lane, pieces, nan):
        self.lane = lane
        out = []
        for p in pieces:
            if out and out[-1][2] == p[2] and out[-1][2] is not None:
                out[-1] = (out[-1][0], p[1], p[2])
            else:
                out.append(p)
        self.pieces = tuple(out)
        self.nan = nan

    def key(self):
        return ('pw', self.lane, self.pieces, self.nan)

    def __eq__(self, o):
        return self is o or (isinstance(o, PW) and self.lane == o.lane and self.nan == o.nan and
                             self.pieces == o.pieces)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    @staticmethod
    def const(v):
        if isinstance(v, float):
            if math.isnan(v):
                val = ('nan',)
            elif math.isinf(v):
                val = ('inf', 1 if v > 0 else -1)
            else:
                val = ('lin', Fr(0), Fr(v))
        else:
            val = v
        return PW(None, [(-INF, INF, val)], val)

    @staticmethod
    def ident(lane):
        return PW(lane, [(-INF, INF, ('lin', Fr(1), Fr(0)))], ('nan',))

    def isconst(self):
        return len(self.pieces) == 1 and self.pieces[0][2] == self.nan

    def cval(self):
        return self.nan if self.isconst() else None


def join_lane(a, b):
    if a.lane is None:
        return b.lane, True
    if b.lane is None or a.lane == b.lane:
        return a.lane, True
    return None, False


def zipw(f, *ps):
    """Combine piecewise functions; f(lo,hi,vals) -> value or list of pieces."""
    lane = None
    for p in ps:
        if p.lane is not None:
            if lane is None:
                lane = p.lane
            elif lane != p.lane:
                return None
    cuts = sorted({q[0] for p in ps for q in p.pieces})
    out = []
    idx = [0]*len(ps)
    for i, lo in enumerate(cuts):
        hi = prv(cuts[i + 1]) if i + 1 < len(cuts) else INF
        vals = []
        for k, p in enumerate(ps):
            while p.pieces[idx[k]][1] < lo:
                idx[k] += 1
            vals.append(p.pieces[idx[k]][2])
        r = f(lo, hi, vals)
        if isinstance(r, list):
            out += [x for x in r if x[0] <= x[1]]
        else:
            out.append((lo, hi, r))
    n = f(None, None, [p.nan for p in ps])
    if isinstance(n, list):
        n = n[0][2]
    return PW(lane, out, n)


def v_bad(vals):
    return any(v == ('bad',) for v in vals)


def pw_map(p, f):
    return zipw(lambda lo, hi, vs: f(lo, hi, vs[0]), p)


def pw_arith(op, a, b):
    def f(lo, hi, vs):
        x, y = vs
        if x is None or y is None:
            return None
        if v_bad(vs):
            return ('bad',)
        if ('nan',) in (x, y):
            return ('nan',)
        if x[0] == 'inf' or y[0] == 'inf':
            return None
        if op in ('add', 'sub'):
            s = 1 if op == 'add' else -1
            if x[0] == 'lin' and y[0] == 'lin':
                return ('lin', x[1] + s*y[1], x[2] + s*y[2])
            if x[0] == 'rnd' and is_const(y) and y[0] == 'lin' and y[2].denominator == 1:
                return norm(('rnd', x[1], x[2], x[3], x[4] + s*y[2]))
            if y[0] == 'rnd' and op == 'add' and x[0] == 'lin' and x[1] == 0 and x[2].denominator == 1:
                return norm(('rnd', y[1], y[2], y[3], y[4] + x[2]))
            return None
        if op == 'mul':
            if x[0] == 'lin' and y[0] == 'lin':
                if y[1] == 0:
                    return ('lin', x[1]*y[2], x[2]*y[2])
                if x[1] == 0:
                    return ('lin', y[1]*x[2], y[2]*x[2])
            return None
        if op == 'div':
            if x[0] == 'lin' and y[0] == 'lin' and y[1] == 0 and y[2] != 0:
                return ('lin', x[1]/y[2], x[2]/y[2])
            return None
        return None
    return zipw(f, a, b)


def pw_neg(a):
    return pw_arith('mul', a, PW.const(-1.0))


def pw_round(m, a):
    def f(lo, hi, v):
        if v is None or v[0] in ('nan', 'bad', 'inf'):
            return v
        if v[0] == 'rnd':
            return v
        return norm(('rnd', m, v[1], v[2], Fr(0)))
    return pw_map(a, f)


def pw_fcmp(pred, a, b):
    un = pred[0] == 'u'
    rel = pred[1:]
    if pred in ('true', 'false'):
        return PW.const(pred == 'true')

    def f(lo, hi, vs):
        x, y = vs
        if x is None or y is None:
            return None
        if v_bad(vs):
            return None
        if ('nan',) in (x, y):
            return pred == 'uno' or (un and pred != 'uno')
        if pred == 'uno':
            return False
        if pred == 'ord':
            return True
        if x[0] == 'inf' and y[0] == 'inf':
            dx, dy = x[1], y[1]
            return {'lt': dx < dy, 'le': dx <= dy, 'gt': dx > dy, 'ge': dx >= dy, 'eq': dx == dy, 'ne': dx != dy}[rel]
        if 'inf' in (x[0], y[0]):
            # finite or infinite lane against an infinity
            return None
        r = rel
        if y[0] == 'lin' and y[1] == 0:
            k, v = y[2], x
        elif x[0] == 'lin' and x[1] == 0:
            k, v = x[2], y
            r = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}[rel]
        elif x[0] == 'lin' and y[0] == 'lin':
            v = ('lin', x[1] - y[1], x[2] - y[2])
            k = Fr(0)
            if v[1] == 0:
                pass
        else:
            return None
        if is_const(v):
            c = ev(v, 0.0)
            return {'lt': c < k, 'le': c <= k, 'gt': c > k, 'ge': c >= k, 'eq': c == k, 'ne': c != k}[r]
        sl = v[1] if v[0] == 'lin' else v[2]
        if lo is None:
            return None
        if sl < 0:
            if v[0] != 'lin':
                return None
            v = ('lin', -v[1], -v[2])
            k = -k
            r = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}[r]
        tge, tgt = cmp_threshold(v, k)
        # < : x < tge ; <= : x < tgt ; >= : x >= tge ; > : x >= tgt
        if r in ('lt', 'ge'):
            t, first = tge, (r == 'lt')
            return [(lo, min(hi, prv(t)), first), (max(lo, t), hi, not first)]
        if r in ('le', 'gt'):
            t, first = tgt, (r == 'le')
            return [(lo, min(hi, prv(t)), first), (max(lo, t), hi, not first)]
        e = r == 'eq'
        return [(lo, min(hi, prv(tge)), not e), (max(lo, tge), min(hi, prv(tgt)), e), (max(lo, tgt), hi, not e)]
    return zipw(f, a, b)


def pw_select(c, a, b):
    def f(lo, hi, vs):
        t, x, y = vs
        if t is None:
            return x if x == y and x is not None else None
        return x if t else y
    return zipw(f, c, a, b)


def pw_bool(op, a, b):
    def f(lo, hi, vs):
        x, y = vs
        if op == 'and':
            if x is False or y is False:
                return False
            return None if None in (x, y) else True
        if op == 'or':
            if x is True or y is True:
                return True
            return None if None in (x, y) else False
        return None if None in (x, y) else x != y
    return zipw(f, a, b)


# ---------------------------------------------------------------- values
TOPF = ('F', None)


def I(w, bits):
    return ('I', w, tuple(bits))


def const_int(w, n):
    n &= (1 << w) - 1
    return I(w, [(n >> i) & 1 for i in range(w)])


def int_const(v):
    if v[0] != 'I' or any(b not in (0, 1) or isinstance(b, tuple) for b in v[2]):
        return None
    return sum(b << i for i, b in enumerate(v[2]))


def bneg(b):
    if b is None:
        return None
    if b in (0, 1) and not isinstance(b, tuple):
        return 1 - b
    return (b[0], b[1], not b[2])


def isc(b):
    return b == 0 or b == 1


def bxor(a, b):
    if isc(a):
        return b if a == 0 else bneg(b)
    if isc(b):
        return a if b == 0 else bneg(a)
    if a is None or b is None:
        return None
    if a == b:
        return 0
    if a == bneg(b):
        return 1
    return None


def band(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if a is None or b is None:
        return None
    if a == b:
        return a
    if a == bneg(b):
        return 0
    return None


def bor(a, b):
    return bneg(band(bneg(a), bneg(b)))


def bmaj(a, b, c):
    if isc(a):
        return bor(b, c) if a == 1 else band(b, c)
    if isc(b):
        return bor(a, c) if b == 1 else band(a, c)
    if isc(c):
        return bor(a, b) if c == 1 else band(a, b)
    if a is not None and a == b:
        return a
    if a is not None and a == c:
        return a
    if b is not None and b == c:
        return b
    return None


def ripple(a, b, cin):
    out, c = [], cin
    for x, y in zip(a, b):
        out.append(bxor(bxor(x, y), c))
        c = bmaj(x, y, c)
    return out


FMT = {'half': (2, 'half'), 'float': (4, 'float'), 'double': (8, 'double')}
TYW = {'half': 16, 'float': 32, 'double': 64}


def vecty(t):
    if t.startswith('<'):
        n, e = t[1:-1].split(' x ')
        return int(n), e
    return None


def short_integer(n):
    """Affine value that is an integer of at most 24 bits."""
    ks = list(dict(n[1]).values()) + [n[2]]
    return all(Fr(k).denominator == 1 for k in ks) and sum(abs(k) for k in ks) <= 1 << 24


class Interp:
    def __init__(self, mod, fn, args, opaque_float=None):
        """args: list of abstract values for the parameters."""
        self.m = mod
        self.fn = fn
        self.val = {}
        self.exprs = []
        self.ekey = {}
        self.reads = []      # (base, off, size, inst)
        self.writes = []     # (base, off, size, inst)
        self.opq = []        # (inst, dem, argvals)
        self.notes = []
        self.bads = []
        self.lossy = False   # a value was rounded to float on its way to an integer
        for a, v in zip(fn.args, args):
            self.val[a['id']] = v
        self.ret = None

    # -- expressions over a lane -------------------------------------------------
    def expr(self, pw, w):
        k = (pw.key(), w)
        if k not in self.ekey:
            self.ekey[k] = len(self.exprs)
            self.exprs.append((pw, w))
        return self.ekey[k]

    def expr_bits(self, pw, w):
        c = pw.cval()
        if c is not None and c[0] == 'lin' and c[1] == 0:
            return const_int(w, int(c[2]))
        e = self.expr(pw, w)
        bits = [(('E', e), i, False) for i in range(w)]
        r = self.prange(pw)
        if r is not None:
            lo, hi = r
            if lo >= 0:
                n = max(1, int(hi).bit_length())
                if n < w:
                    bits[n:] = [0]*(w - n)
            else:
                n = max(int(-lo - 1).bit_length(), int(max(hi, 0)).bit_length()) + 1
                if n < w:
                    bits[n:] = [bits[n - 1]]*(w - n)
        return I(w, bits)

    @staticmethod
    def prange(pw):
        """Integer range over all defined pieces, or None."""
        lo = hi = None
        for a, b, v in list(pw.pieces) + [(0.0, 0.0, pw.nan)]:
            if v is None or v[0] in ('nan', 'inf'):
                return None
            if v[0] == 'bad':
                continue
            x, y = ev(v, a), ev(v, b)
            if x in (INF, -INF) or y in (INF, -INF):
                return None
            x, y = min(x, y), max(x, y)
            lo = x if lo is None else min(lo, x)
            hi = y if hi is None else max(hi, y)
        return None if lo is None else (lo, hi)

    def as_expr(self, v):
        """Integer value as PW of ints valid modulo 2^w, or None."""
        if v[0] != 'I':
            return None
        w, bits = v[1], v[2]
        c = int_const(v)
        if c is not None:
            return PW.const(('lin', Fr(0), Fr(c)))
        b0 = bits[0]
        if not isinstance(b0, tuple) or b0[0][0] != 'E' or b0[1] != 0:
            return None
        e = b0[0]
        n = 0
        while n < w and bits[n] == (e, n, False):
            n += 1
        pw, ew = self.exprs[e[1]]
        if n == w:
            return pw if ew >= w else None
        # zero extended: value must already lie in [0, 2^n)
        if all(b == 0 for b in bits[n:]):
            return self.reduce(pw, 0, n)
        if all(b == (e, n - 1, False) for b in bits[n:]):
            return self.reduce(pw, -(1 << (n - 1)), n)
        return None

    @staticmethod
    def reduce(pw, base, n):
        """Rebase each piece modulo 2^n so that its range lies in [base, base+2^n)."""
        m = 1 << n

        def f(lo, hi, v):
            if v is None or v[0] in ('bad', 'nan', 'inf'):
                return v
            if lo is None:
                if not is_const(v):
                    return None
                lo = hi = 0.0
            a, b = ev(v, lo), ev(v, hi)
            if a in (INF, -INF) or b in (INF, -INF):
                return None
            a, b = min(a, b), max(a, b)
            k = (a - base)//m
            if b - k*m >= base + m:
                return None
            if v[0] == 'lin':
                return ('lin', v[1], v[2] - k*m)
            return ('rnd', v[1], v[2], v[3], v[4] - k*m)
        return pw_map(pw, f)

    # -- operands -----------------------------------------------------------------
    def const(self, o, ty=None):
        k = o[0]
        if k == 'i':
            w = int(o[1])
            if w == 1:
                return ('C', PW.const(bool(int(o[2]))))
            return const_int(w, int(o[2]))
        if k == 'f':
            b = int(o[2])
            f = o[1]
            if f == 'double':
                x = struct.unpack('<d', struct.pack('<Q', b))[0]
            elif f == 'float':
                x = struct.unpack('<f', struct.pack('<I', b))[0]
            elif f == 'half':
                x = struct.unpack('<e', struct.pack('<H', b))[0]
            else:
                return TOPF
            return ('F', ('k', f, x))
        if k == 'n':
            return ('P', 'null', 0)
        if k == 'g':
            return ('P', ('g', o[1]), o[2])
        if k == 'u':
            return ('U',)
        if k == 'z':
            return ('Z', o[1])
        if k == 'agg':
            return ('V', [self.const(x) for x in o[1]])
        return ('T',)

    def single(self, v, ty, rounds=False):
        """A result of type float is rounded unless it is an integer of at most 24 bits."""
        if ty.split(' x ')[-1].strip('<>') != 'float' or v[0] != 'F' or v[1] is None:
            return v
        n = v[1]
        if n[0] == 'aff' and n[1]:
            return v if short_integer(n) else ('F', ('conv', 'float', n))
        if n[0] == 'pw' and rounds:
            return ('F', ('conv', 'float', n))
        return v

    def op(self, o):
        if o[0] == 'v':
            return self.val.get(o[1], ('T',))
        return self.const(o)

    # float nodes: ('k',fmt,x) ('pw',PW) ('aff',{},c) ('fb',fmt,bits) ('conv',fmt,node) ('o',id,byteoff,fmt) None
    def to_pw(self, n):
        if n is None:
            return None
        if n[0] == 'k':
            return PW.const(float(n[2]))
        if n[0] == 'pw':
            return n[1]
        if n[0] == 'conv':
            x = self.to_pw(n[2])
            if x is not None:
                self.lossy = True
            return x
        return None

    def to_aff(self, n):
        if n is None:
            return None
        if n[0] == 'k':
            if math.isnan(n[2]) or math.isinf(n[2]):
                return None
            return ({}, Fr(n[2]))
        if n[0] == 'aff':
            return (dict(n[1]), n[2])
        return None

    @staticmethod
    def aff(d, c):
        d = {k: v for k, v in d.items() if v != 0}
        return ('F', ('aff', tuple(sorted(d.items(), key=repr)), c))

    def farith(self, op, a, b):
        a, b = a[1] if a[0] == 'F' else None, b[1] if b[0] == 'F' else None
        if a is None or b is None:
            return TOPF
        for x in (a, b):
            if x[0] == 'conv' and x[2] is not None and x[2][0] == 'aff':
                # the rounding is kept in mind
                r = self.farith(op, *(('F', y[2] if y[0] == 'conv' else y) for y in (a, b)))
                return r if r[1] is None or r[1][0] != 'aff' else ('F', ('conv', x[1], r[1]))
        pa, pb = self.to_pw(a), self.to_pw(b)
        if pa is not None and pb is not None:
            if a[0] == 'k' and b[0] == 'k':
                try:
                    x, y = a[2], b[2]
                    r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x*y, 'div': lambda: x/y}[op]()
                    return ('F', ('k', a[1], r))
                except ZeroDivisionError:
                    return TOPF
            r = pw_arith(op, pa, pb)
            return ('F', ('pw', r)) if r else TOPF
        xa, xb = self.to_aff(a), self.to_aff(b)
        if xa is None or xb is None:
            return TOPF
        if op in ('add', 'sub'):
            s = 1 if op == 'add' else -1
            d = dict(xa[0])
            for k, v in xb[0].items():
                d[k] = d.get(k, 0) + s*v
            return self.aff(d, xa[1] + s*xb[1])
        if op == 'mul':
            if xa[0] and xb[0]:
                return TOPF
            if xa[0]:
                k, base = xb[1], xa
            else:
                k, base = xa[1], xb
            return self.aff({q: v*k for q, v in base[0].items()}, base[1]*k)
        if op == 'div':
            if xb[0] or xb[1] == 0:
                return TOPF
            return self.aff({q: v/xb[1] for q, v in xa[0].items()}, xa[1]/xb[1])
        return TOPF

    def bits_to_real(self, v, signed):
        if v[0] != 'I':
            return TOPF
        w, bits = v[1], v[2]
        e = self.as_expr(v)
        if e is not None and e.lane is not None:
            r = self.reduce(e, -(1 << (w - 1)) if signed else 0, w)
            return ('F', ('pw', r))
        d, c = {}, Fr(0)
        for i, b in enumerate(bits):
            k = Fr(1 << i)
            if signed and i == w - 1:
                k = -k
            if b is None:
                return TOPF
            if b == 1:
                c += k
            elif b == 0:
                pass
            else:
                src, j, neg = b
                if src[0] == 'E':
                    return TOPF
                if neg:
                    c += k
                    d[(src, j)] = d.get((src, j), 0) - k
                else:
                    d[(src, j)] = d.get((src, j), 0) + k
        return self.aff(d, c)

    # -- memory -------------------------------------------------------------------
    def to_bytes(self, v, ty, size):
        vt = vecty(ty)
        if vt:
            if v[0] == 'U':
                return [('U',)]*size
            if v[0] == 'Z':
                return [('B', (0,)*8)]*size
            if v[0] == 'OV':
                return [('Q', v[1], v[2] + k) for k in range(size)]
            if v[0] != 'V':
                return [None]*size
            es = size//vt[0]
            out = []
            for x in v[1]:
                out += self.to_bytes(x, vt[1], es)
            return out
        if v[0] == 'I':
            bits = list(v[2]) + [0]*(size*8 - v[1])
            if all(isinstance(b, tuple) and b[0][0] == 'BY' for b in bits):
                out = []
                ok = True
                for k in range(size):
                    b = bits[8*k:8*k + 8]
                    if all(b[i] == (b[0][0], i, False) for i in range(8)):
                        out.append(b[0][0][1])
                    else:
                        ok = False
                        break
                if ok:
                    return out
            return [self.mkbyte(bits[8*k:8*k + 8]) for k in range(size)]
        if v[0] == 'C':
            return [None]*size
        if v[0] == 'F':
            return [('P', v[1], ty, k) for k in range(size)] if v[1] is not None else [None]*size
        if v[0] == 'U':
            return [('U',)]*size
        if v[0] == 'Z':
            return [('B', (0,)*8)]*size
        if v[0] == 'P':
            return [('PTR', v, k) for k in range(size)]
        if v[0] == 'OV':
            return [('Q', v[1], v[2] + k) for k in range(size)]
        return [None]*size

    @staticmethod
    def mkbyte(bits):
        if isinstance(bits[0], tuple) and bits[0][0][0] == 'BY' and \
                all(bits[i] == (bits[0][0], i, False) for i in range(8)):
            return bits[0][0][1]
        return ('B', tuple(bits))

    def byte_bits(self, b):
        if b is None or b[0] == 'U':
            return [None]*8
        if b[0] == 'B':
            return list(b[1])
        return [(('BY', b), i, False) for i in range(8)]

    def from_bytes(self, bs, ty, size):
        vt = vecty(ty)
        if vt:
            es = size//vt[0]
            return ('V', [self.from_bytes(bs[i*es:(i + 1)*es], vt[1], es) for i in range(vt[0])])
        if ty in FMT:
            if all(b is not None and b[0] == 'P' for b in bs) and all(
                    bs[k] == ('P', bs[0][1], ty, k) for k in range(size)):
                return ('F', bs[0][1])
            if all(b is not None and b[0] == 'Q' and b[1] == bs[0][1] and b[2] == bs[0][2] + k for k, b in enumerate(bs)):
                return ('F', ('o', bs[0][1], bs[0][2], ty))
            if all(b is not None and b[0] == 'B' for b in bs):
                bits = sum([list(b[1]) for b in bs], [])
                if all(isc(b) for b in bits):
                    n = sum(b << i for i, b in enumerate(bits))
                    return self.const(['f', ty, str(n)])
                return ('F', ('fb', ty, tuple(bits)))
            return TOPF
        if ty == 'ptr':
            if all(b is not None and b[0] == 'PTR' and b[2] == k and b[1] == bs[0][1] for k, b in enumerate(bs)):
                return bs[0][1]
            return ('T',)
        if ty.startswith('i'):
            w = int(ty[1:])
            bits = sum([self.byte_bits(b) for b in bs], [])[:w]
            if w == 1:
                return ('T',)
            return I(w, bits)
        return ('T',)

    def load_mem(self, mem, base, off, size):
        return [mem.get((base, off + k)) for k in range(size)]

    # -- conditions -----------------------------------------------------------------
    def cond(self, v):
        """Abstract i1 -> PW of bool / ('lit',bit) / None"""
        if v[0] == 'C':
            return v[1]
        return None

    # -- run ------------------------------------------------------------------------
    def run(self, init_mem):
        fn = self.fn
        order = fn.rpo()
        num = {b: i for i, b in enumerate(order)}
        for b in order:
            for s in fn.succ[b]:
                if num[s] <= num[b]:
                    raise Undecided('loop remains at ' + fn.term(b).loc())
        self.edge = {}       # (u,v) -> feasible?
        out_mem = {}
        feas = {fn.entry: True}
        self.econd = {}
        for b in order:
            if not feas.get(b):
                continue
            preds = [p for p in fn.pred[b] if (p, b) in self.econd and out_mem.get(p) is not None]
            if b == fn.entry:
                mem = dict(init_mem)
            elif len(preds) == 1:
                mem = dict(out_mem[preds[0]])
            else:
                gates = self.gates(b, preds)
                mem = {}
                keys = set()
                for p in preds:
                    keys |= set(out_mem[p])
                for k in keys:
                    vs = [out_mem[p].get(k) for p in preds]
                    if all(v == vs[0] for v in vs):
                        mem[k] = vs[0]
                    else:
                        mem[k] = self.merge_bytes(vs, gates)
                self.merge_fix(mem, preds, out_mem, gates)
            for ins in fn.bb[b]:
                if ins.op == 'phi':
                    inc = [(self.op(v), p) for v, p in ins['in'] if p in preds]
                    self.val[ins.id] = self.merge_phi(inc, b, preds, ins)
                elif ins.op in ('br', 'switch', 'ret', 'unreachable', 'resume'):
                    self.branch(ins, b, feas)
                else:
                    self.val[ins.id] = self.exec(ins, mem)
            out_mem[b] = mem
            if fn.term(b).op == 'ret':
                t = fn.term(b)
                self.rets = getattr(self, 'rets', [])
                self.rets.append((b, self.op(t.ops[0]) if t.ops else None, mem))
        return self

    def branch(self, ins, b, feas):
        fn = self.fn
        if ins.op == 'br':
            if len(ins.ops) == 1:
                self.econd[(b, ins.ops[0][1])] = PW.const(True)
                feas[ins.ops[0][1]] = True
                return
            c = self.op(ins.ops[0])
            # LLVM prints br operands as cond, false, true
            f, t = ins.ops[1][1], ins.ops[2][1]
            cc = self.cond(c)
            for dst, pol in ((t, True), (f, False)):
                if isinstance(cc, PW):
                    if cc.cval() is not None and cc.cval() != pol:
                        continue
                    e = cc if pol else pw_map(cc, lambda lo, hi, v: None if v is None else not v)
                else:
                    e = ('opaque', ins.id, pol) if c[0] != 'L' else ('lit', c[1] if pol else bneg(c[1]))
                if (b, dst) in self.econd:
                    e = PW.const(True)
                self.econd[(b, dst)] = e
                feas[dst] = True
        elif ins.op == 'switch':
            v = self.op(ins.ops[0])
            c = int_const(v) if v[0] == 'I' else None
            dsts = []
            ops = ins.ops
            for k in range(2, len(ops), 2):
                if c is None or int(ops[k][2]) == c:
                    dsts.append(ops[k + 1][1])
            if c is None or not dsts:
                dsts.append(ops[1][1])
            for d in dsts:
                self.econd[(b, d)] = PW.const(True) if len(dsts) == 1 else ('opaque', ins.id, d)
                feas[d] = True

    def gates(self, b, preds):
        """Edge conditions relative to idom(b): list aligned with preds (PW bool, ('lit',bit) or None)."""
        fn = self.fn
        D = fn.idom[b]
        memo = {}

        def cand(x, y):
            if x is None or y is None:
                return None
            if isinstance(x, PW) and isinstance(y, PW):
                return pw_bool('and', x, y)
            if isinstance(x, PW) and x.cval() is True:
                return y
            if isinstance(y, PW) and y.cval() is True:
                return x
            return None

        def cor(x, y):
            if x is None or y is None:
                return None
            if isinstance(x, PW) and isinstance(y, PW):
                return pw_bool('or', x, y)
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'opaque' and x[1] == y[1]:
                return PW.const(True)
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'lit' and x[1] == bneg(y[1]):
                return PW.const(True)
            return None

        def rc(n):
            if n == D:
                return PW.const(True)
            if n not in memo:
                memo[n] = None
                r = None
                first = True
                for p in fn.pred[n]:
                    if (p, n) not in self.econd:
                        continue
                    e = cand(rc(p), self.econd[(p, n)])
                    r = e if first else cor(r, e)
                    first = False
                memo[n] = r
            return memo[n]
        out = []
        for p in preds:
            out.append(cand(rc(p), self.econd[(p, b)]))
        return out

    def merge_phi(self, inc, b, preds, ins):
        vals = [v for v, p in inc]
        if all(v == vals[0] for v in vals):
            return vals[0]
        gates = self.gates(b, preds)
        g = {p: c for p, c in zip(preds, gates)}
        gs = [g[p] for v, p in inc]
        return self.mux_many(vals, gs, ins['ty'])

    def mux_many(self, vals, gs, ty):
        r = vals[0]
        for v, c in zip(vals[1:], gs[1:]):
            if v == r:
                continue
            r = self.mux(c, v, r, ty)
        return r

    def mux(self, c, a, b, ty=None):
        """c ? a : b"""
        if a == b:
            return a
        if a[0] == 'U':
            return b
        if b[0] == 'U':
            return a
        if isinstance(c, PW):
            cv = c.cval()
            if cv is True:
                return a
            if cv is False:
                return b
            if a[0] == 'F' and b[0] == 'F':
                x, y = self.to_pw(a[1]), self.to_pw(b[1])
                if x is None or y is None:
                    return TOPF
                r = pw_select(c, x, y)
                return ('F', ('pw', r)) if r else TOPF
            if a[0] == 'I' and b[0] == 'I':
                x, y = self.as_expr(a), self.as_expr(b)
                if x is None or y is None:
                    return I(a[1], [None]*a[1])
                r = pw_select(c, x, y)
                return self.expr_bits(r, a[1]) if r else I(a[1], [None]*a[1])
            if a[0] == 'C' and b[0] == 'C' and isinstance(a[1], PW) and isinstance(b[1], PW):
                r = pw_select(c, a[1], b[1])
                return ('C', r)
            return ('T',)
        if isinstance(c, tuple) and c[0] == 'lit' and a[0] == 'I' and b[0] == 'I':
            l = c[1]

            def under(bit, lit):
                if bit == lit:
                    return 1
                if bit == bneg(lit):
                    return 0
                return bit
            out = []
            for x, y in zip(a[2], b[2]):
                x, y = under(x, l), under(y, bneg(l))
                if x == y:
                    out.append(x)
                elif x == 1 and y == 0:
                    out.append(l)
                elif x == 0 and y == 1:
                    out.append(bneg(l))
                else:
                    out.append(None)
            return I(a[1], out)
        if a[0] == 'I':
            return I(a[1], [None]*a[1])
        if a[0] == 'F':
            return TOPF
        return ('T',)

    def merge_bytes(self, vs, gates):
        return ('M', tuple(vs), id(gates))

    def merge_fix(self, mem, preds, out_mem, gates):
        """Merge differing bytes as whole values: group contiguous runs written as one value."""
        pend = sorted([k for k, v in mem.items() if v is not None and v[0] == 'M'], key=repr)
        done = set()
        for k in pend:
            if k in done:
                continue
            base, off = k
            best = None
            for size, ty in ((8, 'double'), (4, 'float'), (2, 'half'), (8, 'i64'), (4, 'i32'), (2, 'i16'), (1, 'i8')):
                vals = []
                for p in preds:
                    bs = [out_mem[p].get((base, off + j)) for j in range(size)]
                    v = self.from_bytes(bs, ty, size) if all(x is not None for x in bs) else ('T',)
                    vals.append(v)
                if any(v[0] == 'T' or (v[0] == 'F' and (v[1] is None or v[1][0] == 'fb' and ty != 'half')) or
                       (v[0] == 'I' and any(x is None for x in v[2])) for v in vals):
                    continue
                r = self.mux_many(vals, gates, ty)
                if r[0] == 'T' or (r[0] == 'F' and r[1] is None) or (r[0] == 'I' and any(x is None for x in r[2])):
                    continue
                best = (size, ty, r)
                break
            if best is None:
                mem[k] = None
                done.add(k)
                continue
            size, ty, r = best
            for j, x in enumerate(self.to_bytes(r, ty, size)):
                mem[(base, off + j)] = x
                done.add((base, off + j))

    # -- instructions -----------------------------------------------------------------
    def exec(self, ins, mem):
        op, ty = ins.op, ins['ty']
        o = ins.ops
        if op == 'alloca':
            return ('P', ('a', ins.id), 0)
        if op == 'getelementptr':
            b = self.op(ins['base'])
            if b[0] != 'P' or b[2] is None:
                return ('P', b[1] if b[0] == 'P' else ('?', ins.id), None)
            off = b[2] + ins['off']
            for v, s in ins['idx']:
                x = self.op(v)
                c = int_const(x) if x[0] == 'I' else None
                if c is None:
                    return ('P', b[1], None)
                if c >= 1 << (x[1] - 1):
                    c -= 1 << x[1]
                off += c*s
            return ('P', b[1], off)
        if op == 'load':
            p = self.op(o[0])
            if p[0] != 'P' or p[2] is None:
                self.notes.append('load through unknown pointer at ' + ins.loc())
                if p[0] == 'P':
                    self.reads.append((p[1], None, ins['sz'], ins))
                return self.topv(ty)
            self.reads.append((p[1], p[2], ins['sz'], ins))
            if isinstance(p[1], tuple) and p[1][0] == 'g':
                return self.gload(p[1][1], p[2], ty, ins['sz'])
            return self.from_bytes(self.load_mem(mem, p[1], p[2], ins['sz']), ty, ins['sz'])
        if op == 'store':
            p = self.op(o[1])
            v = self.op(o[0])
            n = ins['ssz']
            if p[0] != 'P' or p[2] is None:
                self.notes.append('store through unknown pointer at ' + ins.loc())
                self.writes.append((p[1] if p[0] == 'P' else '?', None, n, ins))
                if p[0] == 'P':
                    for k in [k for k in mem if k[0] == p[1]]:
                        mem[k] = None
                return None
            self.writes.append((p[1], p[2], n, ins))
            for k, x in enumerate(self.to_bytes(v, ins['sty'], n)):
                mem[(p[1], p[2] + k)] = x
            return None
        if op == 'call':
            return self.call(ins, mem)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self.op(o[0]), self.op(o[1])
            if vecty(ty):
                if a[0] == 'V' and b[0] == 'V':
                    return ('V', [self.single(self.farith(op[1:], x, y), ty, True) for x, y in zip(a[1], b[1])])
                return ('T',)
            return self.single(self.farith(op[1:], a, b), ty, True)
        if op == 'fneg':
            return self.farith('mul', self.op(o[0]), ('F', ('k', ty, -1.0)))
        if op in ('fpext', 'fptrunc'):
            a = self.op(o[0])
            f = (lambda v: v if op == 'fpext' else self.ftrunc(v, ty.split(' x ')[-1].strip('<>')))
            if a[0] == 'V':
                return ('V', [f(x) if x[0] == 'F' else x for x in a[1]])
            return f(a) if a[0] == 'F' else TOPF
        if op in ('uitofp', 'sitofp'):
            a = self.op(o[0])
            if a[0] == 'V':
                return ('V', [self.single(self.bits_to_real(x, op == 'sitofp'), ty) for x in a[1]])
            if a[0] == 'I':
                return self.single(self.bits_to_real(a, op == 'sitofp'), ty)
            return TOPF
        if op in ('fptoui', 'fptosi'):
            a = self.op(o[0])
            if a[0] == 'V':
                w = int(vecty(ty)[1][1:])
                return ('V', [self.ftoi(x, w, op == 'fptosi', ins) for x in a[1]])
            return self.ftoi(a, int(ty[1:]), op == 'fptosi', ins)
        if op == 'fcmp':
            a, b = self.op(o[0]), self.op(o[1])
            if a[0] == 'F' and b[0] == 'F':
                was = self.lossy
                x, y = self.to_pw(a[1]), self.to_pw(b[1])
                self.lossy = was
                if x is not None and y is not None:
                    r = pw_fcmp(ins['pred'], x, y)
                    if r is not None:
                        return ('C', r)
            return ('T',)
        if op == 'icmp':
            return self.icmp(ins)
        if op == 'select':
            c = self.op(o[0])
            a, b = self.op(o[1]), self.op(o[2])
            if c[0] == 'C' and isinstance(c[1], PW):
                return self.mux(c[1], a, b)
            if c[0] == 'L':
                return self.mux(('lit', c[1]), a, b)
            return a if a == b else self.topv(ty)
        if op == 'freeze':
            return self.op(o[0])
        if op in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = self.op(o[0]), self.op(o[1])
            if ty == 'i1':
                if a[0] == 'C' and b[0] == 'C' and op in ('and', 'or', 'xor'):
                    r = pw_bool(op, a[1], b[1])
                    return ('C', r) if r is not None else ('T',)
                if a[0] == 'L' and b[0] == 'C' and b[1].cval() is True and op == 'xor':
                    return ('L', bneg(a[1]))
                return ('T',)
            if vecty(ty):
                b2 = b
                if a[0] == 'V' and b[0] == 'V':
                    return ('V', [self.iarith(op, x, y) if x[0] == 'I' and y[0] == 'I' else ('T',)
                                  for x, y in zip(a[1], b[1])])
                return ('T',)
            if a[0] != 'I' or b[0] != 'I':
                return self.topv(ty)
            return self.iarith(op, a, b)
        if op in ('zext', 'sext', 'trunc'):
            a = self.op(o[0])
            if a[0] == 'V':
                n, e = vecty(ty)
                return ('V', [self.icast(op, x, int(e[1:])) for x in a[1]])
            return self.icast(op, a, int(ty[1:]))
        if op == 'bitcast':
            a = self.op(o[0])
            src = ins['oty']
            n = ins['sz']
            return self.from_bytes(self.to_bytes(a, src, n), ty, n)
        if op == 'extractelement':
            a, i = self.op(o[0]), self.op(o[1])
            c = int_const(i) if i[0] == 'I' else None
            if a[0] == 'V' and c is not None and c < len(a[1]):
                return a[1][c]
            if a[0] == 'OV' and c is not None:
                return ('F', ('o', a[1], a[2] + c*ins['sz'], ty)) if ty in FMT else ('OV', a[1], a[2] + c*ins['sz'])
            return self.topv(ty)
        if op == 'insertelement':
            a, v, i = self.op(o[0]), self.op(o[1]), self.op(o[2])
            n, e = vecty(ty)
            c = int_const(i) if i[0] == 'I' else None
            if c is None:
                return ('T',)
            el = list(a[1]) if a[0] == 'V' else [('U',)]*n if a[0] == 'U' else \
                [const_int(int(e[1:]), 0)]*n if a[0] == 'Z' and e[0] == 'i' else [('T',)]*n
            el[c] = v
            return ('V', el)
        if op == 'shufflevector':
            a, b = self.op(o[0]), self.op(o[1])
            if a[0] != 'V':
                return ('T',)
            el = list(a[1]) + (list(b[1]) if b[0] == 'V' else [('U',)]*len(a[1]))
            return ('V', [el[k] if 0 <= k < len(el) else ('U',) for k in ins['mask']])
        if op == 'extractvalue':
            a = self.op(o[0])
            if a[0] == 'OV':
                return self.opaque_at(a[1], a[2] + ins['boff'], ty)
            return self.topv(ty)
        return self.topv(ty)

    def opaque_at(self, oid, off, ty):
        if ty in FMT:
            return ('F', ('o', oid, off, ty))
        vt = vecty(ty)
        if vt:
            es = TYW.get(vt[1], 8*8 if vt[1] == 'ptr' else int(vt[1][1:]) if vt[1][0] == 'i' else 0)//8
            return ('V', [self.opaque_at(oid, off + k*es, vt[1]) for k in range(vt[0])])
        if ty.startswith('i') and ty[1:].isdigit() and int(ty[1:]) % 8 == 0:
            n = int(ty[1:])//8
            return I(n*8, [(('BY', ('Q', oid, off + k//8)), k % 8, False) for k in range(n*8)])
        return ('OV', oid, off)

    def topv(self, ty):
        if ty in FMT:
            return TOPF
        if ty.startswith('i') and ty[1:].isdigit() and ty != 'i1':
            return I(int(ty[1:]), [None]*int(ty[1:]))
        return ('T',)

    def gload(self, g, off, ty, size):
        G = self.m.globals.get(g)
        if G and G.get('const') and 'init' in G:
            for o2, s, v in G['init']:
                if o2 == off and s == size:
                    return self.const(v)
        if G and G.get('const') and 'hex' in G and ty == 'i8':
            b = bytes.fromhex(G['hex'])
            if 0 <= off < len(b):
                return const_int(8, b[off])
        return self.topv(ty)

    def ftrunc(self, v, fmt):
        n = v[1]
        if n is None:
            return TOPF
        if n[0] == 'k':
            return ('F', ('k', fmt, n[2]))
        if n[0] == 'conv' and n[1] == fmt:
            return v
        if n[0] == 'fb' and n[1] == fmt or n[0] == 'o' and n[3] == fmt:
            return v
        return ('F', ('conv', fmt, n))

    def ftoi(self, v, w, signed, ins):
        bad_lo, bad_hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        n = v[1] if v[0] == 'F' else None
        pw = self.to_pw(n) if n is not None else None
        if pw is None:
            return I(w, [None]*w)

        def f(lo, hi, x):
            if x is None or x == ('bad',):
                return x
            if x[0] in ('nan', 'inf'):
                return ('bad',)
            if lo is None and not is_const(x):
                return None
            y = x
            if x[0] == 'lin' and not (x[1] == 0 and x[2].denominator == 1):
                y = norm(('rnd', 'trunc', x[1], x[2], Fr(0)))
            if is_const(y):
                k = ev(y, 0.0)
                return y if bad_lo <= k <= bad_hi else ('bad',)
            a = y[1] if y[0] == 'lin' else y[2]
            if a < 0:
                return None
            tlo = cmp_threshold(y, Fr(bad_lo))[0]
            thi = cmp_threshold(y, Fr(bad_hi))[1]
            return [(lo, min(hi, prv(tlo)), ('bad',)), (max(lo, tlo), min(hi, prv(thi)), y), (max(lo, thi), hi, ('bad',))]
        r = pw_map(pw, f)
        if any(p[2] == ('bad',) for p in r.pieces) or r.nan == ('bad',):
            self.bads.append(ins)
        return self.expr_bits(r, w)

    def icmp(self, ins):
        a, b = self.op(ins.ops[0]), self.op(ins.ops[1])
        p = ins['pred']
        if a[0] == 'P' and b[0] == 'P':
            if 'null' in (a[1], b[1]) and p in ('eq', 'ne'):
                eq = a[1] == b[1]
                return ('C', PW.const(eq if p == 'eq' else not eq))
            return ('T',)
        if a[0] == 'I' and b[0] == 'I':
            x, y = int_const(a), int_const(b)
            w = a[1]
            if x is not None and y is not None:
                def s(n):
                    return n - (1 << w) if n >> (w - 1) else n
                r = {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
                     'slt': s(x) < s(y), 'sle': s(x) <= s(y), 'sgt': s(x) > s(y), 'sge': s(x) >= s(y)}[p]
                return ('C', PW.const(r))
            if y is not None and p in ('eq', 'ne') and y == 0:
                nz = [q for q in a[2] if q != 0]
                if len(nz) == 1 and isinstance(nz[0], tuple):
                    return ('L', nz[0] if p == 'ne' else bneg(nz[0]))
            if p == 'slt' and y == 0 and isinstance(a[2][-1], tuple):
                return ('L', a[2][-1])
            if p == 'sgt' and y == (1 << w) - 1 and isinstance(a[2][-1], tuple):
                return ('L', bneg(a[2][-1]))
            ea, eb = self.as_expr(a), self.as_expr(b)
            if ea is not None and eb is not None:
                base = -(1 << (w - 1)) if p[0] == 's' else 0
                r1, r2 = self.reduce(ea, base, w), self.reduce(eb, base, w)
                q = {'eq': 'oeq', 'ne': 'one'}.get(p, 'o' + p[1:])
                r = pw_fcmp(q, r1, r2)
                if r is not None:
                    return ('C', r)
        return ('T',)

    def mix(self, out, A, B):
        """Bits that combine varying bits of independent lanes: not known, but known to depend on both."""
        def lanes(b):
            if not isinstance(b, tuple):
                return None
            if b[0][0] == 'X':
                return set(b[0][1])
            if b[0][0] == 'E':
                pw = self.exprs[b[0][1]][0]
                return {pw.lane} if isinstance(pw.lane, int) else None
            return None
        for i, (x, y) in enumerate(zip(A, B)):
            if out[i] is None:
                p, q = lanes(x), lanes(y)
                if p and q and not p & q:
                    out[i] = (('X', tuple(sorted(p | q))), 0, False)
        return out

    def iarith(self, op, a, b):
        w = a[1]
        A, B = a[2], b[2]
        ca, cb = int_const(a), int_const(b)
        if op == 'and':
            return I(w, self.mix([band(x, y) for x, y in zip(A, B)], A, B))
        if op == 'or':
            return I(w, self.mix([bor(x, y) for x, y in zip(A, B)], A, B))
        if op == 'xor':
            return I(w, self.mix([bxor(x, y) for x, y in zip(A, B)], A, B))
        if op in ('shl', 'lshr', 'ashr'):
            if cb is None or cb >= w:
                return I(w, [None]*w)
            if op == 'shl':
                return I(w, [0]*cb + list(A[:w - cb]))
            fill = 0 if op == 'lshr' else A[-1]
            return I(w, list(A[cb:]) + [fill]*cb)
        if op in ('add', 'sub'):
            if ca is not None and cb is not None:
                return const_int(w, ca + cb if op == 'add' else ca - cb)
            ea, eb = self.as_expr(a), self.as_expr(b)
            if ea is not None and eb is not None:
                r = pw_arith(op, ea, eb)
                if r is not None:
                    return self.expr_bits(r, w)
            if op == 'add' and all(x == 0 or y == 0 for x, y in zip(A, B)):
                return I(w, [bor(x, y) for x, y in zip(A, B)])
            if op == 'add':
                return I(w, ripple(A, B, 0))
            return I(w, ripple(A, [bneg(x) for x in B], 1))
        if op == 'mul':
            for p, q, c in ((a, b, cb), (b, a, ca)):
                if c is not None and c and c & (c - 1) == 0:
                    k = c.bit_length() - 1
                    return I(w, [0]*k + list(p[2][:w - k]))
            if ca is not None and cb is not None:
                return const_int(w, ca*cb)
        if op in ('udiv', 'urem') and cb and cb & (cb - 1) == 0:
            k = cb.bit_length() - 1
            return I(w, list(A[k:]) + [0]*k) if op == 'udiv' else I(w, list(A[:k]) + [0]*(w - k))
        return I(w, [None]*w)

    def icast(self, op, a, w):
        if a[0] == 'C':
            c = a[1].cval() if isinstance(a[1], PW) else None
            if c is not None:
                return const_int(w, (1 if op == 'zext' else -1) if c else 0)
            if isinstance(a[1], PW):
                r = pw_map(a[1], lambda lo, hi, v: None if v is None else ('lin', Fr(0), Fr(int(v))))
                return self.expr_bits(r, w)
            return I(w, [None]*w)
        if a[0] == 'L':
            return I(w, [a[1]] + [0]*(w - 1)) if op == 'zext' else I(w, [a[1]]*w)
        if a[0] != 'I':
            return I(w, [None]*w) if w > 1 else ('T',)
        if op == 'trunc':
            if w == 1:
                b = a[2][0]
                if isc(b):
                    return ('C', PW.const(bool(b)))
                return ('L', b) if b is not None else ('T',)
            return I(w, a[2][:w])
        fill = 0 if op == 'zext' else a[2][-1]
        return I(w, list(a[2]) + [fill]*(w - a[1]))

    ROUND = {'round': 'round', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'rint': 'rne',
             'nearbyint': 'rne', 'roundeven': 'rne'}

    def call(self, ins, mem):
        intr = ins.get('intr', '')
        dem = ins.get('dem', '')
        ty = ins['ty']
        args = ins['args']
        if intr.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.donothing')):
            if intr == 'llvm.lifetime.start':
                p = self.op(args[1])
                if p[0] == 'P' and p[2] is not None:
                    for k in [k for k in mem if k[0] == p[1]]:
                        mem[k] = ('U',)
            return None
        if intr in ('llvm.memcpy', 'llvm.memmove', 'llvm.memcpy.inline') or dem in ('memcpy', 'memmove'):
            d, s, n = self.op(args[0]), self.op(args[1]), self.op(args[2])
            c = int_const(n) if n[0] == 'I' else None
            if d[0] == 'P' and s[0] == 'P' and None not in (d[2], s[2], c):
                self.reads.append((s[1], s[2], c, ins))
                self.writes.append((d[1], d[2], c, ins))
                vals = [mem.get((s[1], s[2] + k)) for k in range(c)]
                if isinstance(s[1], tuple) and s[1][0] == 'g':
                    vals = self.gbytes(s[1][1], s[2], c)
                for k, v in enumerate(vals):
                    mem[(d[1], d[2] + k)] = v
                return d if dem else None
            self.notes.append('memcpy with unknown extent at ' + ins.loc())
            for p, l in ((d, self.writes), (s, self.reads)):
                l.append((p[1] if p[0] == 'P' else '?', None, c, ins))
            if d[0] == 'P':
                for k in [k for k in mem if k[0] == d[1]]:
                    mem[k] = None
            return None
        if intr == 'llvm.memset' or dem == 'memset':
            d, v, n = self.op(args[0]), self.op(args[1]), self.op(args[2])
            c = int_const(n) if n[0] == 'I' else None
            if d[0] == 'P' and d[2] is not None and c is not None and v[0] == 'I':
                self.writes.append((d[1], d[2], c, ins))
                for k in range(c):
                    mem[(d[1], d[2] + k)] = ('B', v[2])
            else:
                self.notes.append('memset with unknown extent at ' + ins.loc())
            return None
        base = intr[5:] if intr.startswith('llvm.') else dem.split('(')[0]
        base = base.replace('std::', '')
        if base.endswith('f') and base[:-1] in self.ROUND:
            base = base[:-1]
        if base in self.ROUND:
            a = self.op(args[0])
            pw = self.to_pw(a[1]) if a[0] == 'F' and a[1] is not None else None
            return ('F', ('pw', pw_round(self.ROUND[base], pw))) if pw is not None else TOPF
        if base in ('lround', 'llround', 'lrint', 'llrint'):
            a = self.op(args[0])
            pw = self.to_pw(a[1]) if a[0] == 'F' and a[1] is not None else None
            if pw is None:
                return self.topv(ty)
            r = pw_round('round' if 'round' in base else 'rne', pw)
            return self.ftoi(('F', ('pw', r)), int(ty[1:]), True, ins)
        if base in ('fabs',):
            a = self.op(args[0])
            pw = self.to_pw(a[1]) if a[0] == 'F' and a[1] is not None else None
            if pw is None:
                return TOPF
            neg = pw_fcmp('olt', pw, PW.const(0.0))
            return ('F', ('pw', pw_select(neg, pw_neg(pw), pw)))
        if base in ('minnum', 'maxnum', 'fmin', 'fmax', 'minimum', 'maximum'):
            a, b = self.op(args[0]), self.op(args[1])
            x = self.to_pw(a[1]) if a[0] == 'F' and a[1] is not None else None
            y = self.to_pw(b[1]) if b[0] == 'F' and b[1] is not None else None
            if x is None or y is None:
                return TOPF
            c = pw_fcmp('olt' if 'min' in base else 'ogt', x, y)
            r = pw_select(c, x, y) if c is not None else None
            if r is None:
                return TOPF
            if base in ('minnum', 'maxnum', 'fmin', 'fmax'):
                un = pw_fcmp('uno', y, y)
                r = pw_select(un, x, r)
            return ('F', ('pw', r))
        if base in ('isnan', '__isnan'):
            a = self.op(args[0])
            pw = self.to_pw(a[1]) if a[0] == 'F' and a[1] is not None else None
            if pw is not None:
                c = pw_fcmp('uno', pw, pw)
                return ('C', c) if ty == 'i1' else self.icast('zext', ('C', c), int(ty[1:]))
        if base == 'is.fpclass':
            a, k = self.op(args[0]), self.op(args[1])
            pw = self.to_pw(a[1]) if a[0] == 'F' and a[1] is not None else None
            if pw is not None and int_const(k) == 3:
                return ('C', pw_fcmp('uno', pw, pw))
            return ('T',)
        if base in ('fptoui.sat', 'fptosi.sat'):
            return self.topv(ty)
        if base in ('umin', 'umax', 'smin', 'smax'):
            a, b = self.op(args[0]), self.op(args[1])
            ea = self.as_expr(a) if a[0] == 'I' else None
            eb = self.as_expr(b) if b[0] == 'I' else None
            if ea is None or eb is None:
                return self.topv(ty)
            w = a[1]
            lo = -(1 << (w - 1)) if base[0] == 's' else 0
            ea, eb = self.reduce(ea, lo, w), self.reduce(eb, lo, w)
            c = pw_fcmp('olt' if 'min' in base else 'ogt', ea, eb)
            r = pw_select(c, ea, eb) if c is not None else None
            return self.expr_bits(r, w) if r is not None else self.topv(ty)
        # opaque call: record argument values, with the bytes behind pointer arguments
        av = []
        for a in args:
            v = self.op(a)
            if v[0] == 'P' and v[2] is not None and isinstance(v[1], tuple) and v[1][0] == 'a':
                bs = []
                k = 0
                while (v[1], v[2] + k) in mem and k < 64:
                    bs.append(mem[(v[1], v[2] + k)])
                    k += 1
                av.append(('MEM', bs))
            else:
                av.append(v)
        oid = len(self.opq)
        self.opq.append((ins, dem or intr, av))
        for r, i in ins.get('byval', []):
            if r == 'sret':
                p = self.op(args[i])
                if p[0] == 'P' and p[2] is not None:
                    for k in range(64):
                        mem[(p[1], p[2] + k)] = ('Q', oid, k)
        if ty == 'void':
            return None
        return self.opaque_at(oid, 0, ty)

    def gbytes(self, g, off, n):
        G = self.m.globals.get(g)
        out = [None]*n
        if G and G.get('const'):
            if 'hex' in G:
                b = bytes.fromhex(G['hex'])
                for k in range(n):
                    if off + k < len(b):
                        out[k] = ('B', const_int(8, b[off + k])[2])
            else:
                for o2, s, v in G.get('init', []):
                    bs = self.to_bytes(self.const(v), v[1] if v[0] == 'f' else 'i%d' % (8*s), s)
                    for k in range(s):
                        if 0 <= o2 + k - off < n:
                            out[o2 + k - off] = bs[k]
        return out
