"""The conversion: one gated summary per primitive type and index type, everything of the library
inlined into Converter::convert() except the codec, the index helpers and the containers."""
import re
from ..build import AnalysisError
from ..terms import *
from ..canon import Canon
from ..lib import *

FMT, ITYPE, PRIM, PATCH, MAXI, STREAMS, MAP, VERTS, INDS, IDATA, ICOUNT = 0, 24, 25, 28, 32, 72, 96, 120, 144, 168, 192
PRIMS = ['PointList', 'LineList', 'LineStrip', 'TriangleList', 'TriangleStrip', 'TriangleFan', 'PatchList']
ITYPES = ['NoIndices', 'UInt16', 'UInt32']
STRIPS = (2, 4, 5)
KEEP = ['^vfc::VertexValue::(from|to)Data', '^vfc::VertexValue::expandBounds', '^vfc::(get|set)IndexValue', '::logError',
        '^vfc::VertexFormat::find\\(char', 'murmurHash', 'VertexHash::operator', 'VertexRef::operator==']
VECM = re.compile(r'(?:[a-z_:<>0-9 ,]*? )?std::vector<')
MUTV = re.compile(r'(?:void )?std::vector<.*>::(~?\w+)(?:<[^()]*>)?\(')
INS = re.compile(r'__gnu_cxx::__normal_iterator<.*> std::vector<.*>::insert<')


def layout_ok(m):
    """The member offsets that the rules were written for."""
    want = {'m_vertexFormat': FMT, 'm_indexType': ITYPE, 'm_primitiveType': PRIM, 'm_patchPoints': PATCH,
            'm_maxIndexValue': MAXI, 'm_vertexStreams': STREAMS, 'm_elementMapping': MAP, 'm_vertices': VERTS,
            'm_indices': INDS, 'm_indexData': IDATA, 'm_indexCount': ICOUNT}
    have = {x['name']: x['off'] for x in m.structs['vfc::Converter']['members']}
    return all(have.get(k) == v for k, v in want.items())


def ignore(g, i):
    """Calls on the vector of output streams inside of the loops: they do not change how many streams there are (each such
    call is reported by the rules, this only keeps what it could do from hiding the rest)."""
    return g.loop_of[i.bb] is not None and bool(i['args']) and 'std::vector<std::vector<' in i.get('dem', '')[:40] and \
        g.abase(i['args'][0]) == (('arg', 0), VERTS)


def C_widen(g, i):
    """A position as 64-bit and 32-bit number."""
    at = patom(P(32, dict(i[2])))
    if at is not None and at[0] == 'qv':
        return A(64, at), A(32, at)
    i = P(32, dict(i[2]))
    return g.cast('zext', i, 64, 32), i


class Conv:
    def __init__(self, m, p, t):
        self.m, self.p, self.t = m, p, t
        self.name = '%s/%s' % (PRIMS[p], ITYPES[t])
        f = m.funcs.get('conv|%d|%d' % (p, t))
        if f is None:
            raise AnalysisError('Converter::convert() not found')
        this = A(64, ('arg', 0))
        self.this = this
        vecm = lambda d: VECM.match(d)
        self.gi = lambda d: d.startswith('vfc::getIndexValue(')
        self.g = g = GFun(m, f, pure=[self.gi], readonly=[lambda d: 'logError' in d], track_args=True,
                          member_sizes=[(vecm, 24)], nested=True, ignore=ignore,
                          regions=[(o, 24) for o in (FMT, STREAMS, MAP, VERTS, INDS, IDATA)],
                          backptrs=[(padd(this, K(64, IDATA)), 24)])
        self.B = g.B
        self.c = Canon(g, calls=[self.gi], extra={'ldv', 'ev', 'callv', 'anytrip'})
        self.c.rec = self.canont
        self.c.foreign = lambda x: x[2][0] == 'p' and root_off(x[2])[0] == this and 196 <= root_off(x[2])[1] < 4096
        self.eff = g.effects()
        self.kind = {}
        for e in self.eff:
            self.kind.setdefault(self.classify(e), []).append(e)
        self.giname = None
        for e in self.kind.get('getIndex', []):
            self.giname = e['dem']
        self.rmemo = {}

    # ---------------------------------------------------------- effects
    def classify(self, e):
        g = self.g
        d = e.get('dem') or ''
        if e.op == 'ret':
            return 'ret'
        if e.op == 'store':
            return 'store'
        if 'logError' in d:
            return 'log'
        for k in ('fromData', 'toData', 'expandBounds'):
            if d.startswith('vfc::VertexValue::%s(' % k):
                return k
        if self.gi(d):
            return 'getIndex'
        if d.startswith('vfc::setIndexValue('):
            return 'setIndex'
        mm = MUTV.match(d)
        if INS.match(d):
            return 'insert'
        if mm and e['args']:
            b, o = g.abase(e['args'][0])
            if b == ('arg', 0):
                w = {VERTS: 'verts', INDS: 'inds', IDATA: 'idata'}.get(o, 'member%s' % o)
                return w + '.' + mm.group(1)
            return 'vec.' + mm.group(1)
        if 'unordered_set<' in d or 'Hashtable' in d:
            mm = re.search(r'>::(~?\w+)(?:<.*>)?\(', d)
            return 'set.' + (mm.group(1) if mm else '?')
        if 'basic_string' in d:
            return 'string'
        return 'other'

    def ctx(self, e):
        return self.g.loop_of[e.bb]

    def args(self, e):
        return self.g.args(e)

    def full(self, e):
        return self.g.full(e.bb)

    def closed(self, b):
        """Condition under which block b runs at all: quantified over the loops around it."""
        g, B = self.g, self.B
        r = g.cond(b)
        l = g.loop_of[b]
        while l is not None:
            r = B.AND(g.region_reach(l.parent).get(g.nkey(l), 0), B.var(('ex', l.id, r)) if r else 0)
            l = l.parent
        return r

    # ---------------------------------------------------------- memory
    def ld(self, addr, ty='i64', at=None):
        """Memory before instruction at (initially when None)."""
        if at is None:
            return self.g.initial(addr, ty)
        if addr[0] == 'ite':
            return self.g.mkite([(c, self.ld(x, ty, at)) for c, x in addr[1]])
        return self.g.value_before(addr, ty, at, self.ctx(at))

    def field(self, off, ty='i64', at=None):
        return self.ld(padd(self.this, K(64, off)), ty, at)

    def ref(self, k, l):
        """Address of the element reference of output element l of stream k."""
        return padd(self.g.initial(padd(self.field(MAP), pmul(k, K(64, 24))), 'i64'), pmul(l, K(64, 88)))

    def fmtel(self, k, l):
        """Address of output element l of stream k."""
        return padd(self.g.initial(padd(self.field(FMT), pmul(k, K(64, 32))), 'i64'), pmul(l, K(64, 40)))

    def stride(self, k):
        return self.g.initial(padd(self.field(FMT), padd(pmul(k, K(64, 32)), K(64, 24))), 'i32')

    def stream(self, k, l):
        g = self.g
        si = g.initial(self.ref(k, l), 'i32')
        return padd(self.field(STREAMS), pmul(g.cast('zext', si, 64, 32), K(64, 56)))

    def element(self, k, l):
        return self.g.initial(padd(self.ref(k, l), K(64, 8)), 'i64')

    def index(self, k, l, i):
        """Index of position i for output element l of stream k."""
        g = self.g
        s = self.stream(k, l)
        i64, i32 = C_widen(g, i)
        return A(32, ('call', self.giname, (g.initial(padd(s, K(64, 52)), 'i8'), g.initial(padd(s, K(64, 8)), 'i64'), i64, i32)))

    def count(self, k, l):
        return self.g.initial(padd(self.stream(k, l), K(64, 48)), 'i32')

    def stype(self, k, l):
        return self.g.initial(padd(self.stream(k, l), K(64, 52)), 'i8')

    def isrestart(self, k, l, i):
        if self.p not in STRIPS:
            return 0
        g, B = self.g, self.B
        x = self.index(k, l, i)
        u16 = g.cmp('eq', self.stype(k, l), K(8, 1))
        return B.ite(u16, g.cmp('eq', x, K(32, 0xffff)), g.cmp('eq', x, K(32, 0xffffffff)))

    def outside(self, k, l, i):
        return self.B.NOT(self.g.cmp('ult', self.index(k, l, i), self.count(k, l)))

    NS = A(64, ('sym', 'NS'))

    def NE(self, k):
        return A(64, ('sym', 'NE', k))

    @property
    def IC(self):
        return self.field(ICOUNT, 'i32')

    def q(self, n, w=64):
        return A(w, ('qv', n))

    def EX(self, trip, body):
        return self.B.var(('EX', trip, body)) if body else 0

    # ---------------------------------------------------------- roles
    def vecof(self, d):
        """(address of the vector, version) when d is the difference of its end and begin."""
        if len(d[2]) != 2:
            return None
        pos = [k for k, c in d[2] if c == 1 and len(k) == 1]
        neg = [k for k, c in d[2] if c == (1 << d[1]) - 1 and len(k) == 1]
        if len(pos) != 1 or len(neg) != 1:
            return None
        e, b = pos[0][0], neg[0][0]
        if e[0] not in ('ld', 'ldv') or e[0] != b[0] or e[3:] != b[3:]:
            return None
        return (b[2], e[3] if e[0] == 'ldv' else None) if e[2] == padd(b[2], K(64, 8)) else None

    def vertex_vec(self, va, tag):
        """(k, number of vertices) when va is the address of the vector of output stream k."""
        m = self.g.fn.insts
        for (k, c) in va[2]:
            x = k[0] if len(k) == 1 else None
            if c == 1 and x and x[0] in ('ld', 'ldv') and x[2] == padd(self.this, K(64, VERTS)):
                d = padd(va, A(64, x), -1)
                if all(c % 24 == 0 for _, c in d[2]) and sum(len(q) for q, _ in d[2]) <= 1:
                    ix = P(64, {q: c // 24 for q, c in d[2]})
                    # while a vertex is added or removed the streams differ
                    l = None
                    if isinstance(tag, tuple) and tag[0] == 'loop':
                        l = next((x for x in self.g.loops if x.header == tag[1]), None)
                    elif isinstance(tag, int) and tag in m:
                        l = self.ctx(m[tag])
                    own = ()
                    if l is not None and any(self.ctx(e) is l for q in ('insert', 'vec.resize', 'verts.resize')
                                             for e in self.kind.get(q, [])):
                        own = (ix,)
                    return ix, self.g.cast('zext', A(32, ('sym', 'NV', tag) + own), 64, 32)
        return None

    def outsize(self, a):
        """Sizes of the output: a whole number of indices, and for each stream a whole number of vertices."""
        if a[0] == 'div' and a[1][0] == 'p' and a[2][0] == 'p':
            v = self.vecof(a[1])
            if v is None:
                return None
            if v[0] == padd(self.this, K(64, INDS)) and pconst(a[2]) and pconst(a[2]) == ISZ[self.t]:
                return self.g.cast('zext', A(32, ('sym', 'NI', v[1])), 64, 32)
            q = self.vertex_vec(*v) if v[1] is not None else None
            if q and a[2] == self.g.cast('zext', self.stride(q[0]), 64, 32):
                return q[1]
            return None
        if a[0] not in ('ld', 'ldv') or a[1] not in ('i64', 'ptr') or a[2][0] != 'p':
            return None
        tag = a[3] if a[0] == 'ldv' else None
        va = padd(a[2], K(64, 8), -1)
        begin = A(64, a[:2] + (va,) + a[3:])
        if va == padd(self.this, K(64, INDS)) and self.t:
            return padd(begin, pmul(K(64, ISZ[self.t]), self.g.cast('zext', A(32, ('sym', 'NI', tag)), 64, 32)))
        q = self.vertex_vec(va, tag) if tag is not None else None
        if q:
            return padd(begin, pmul(self.g.cast('zext', self.stride(q[0]), 64, 32), q[1]))
        return None

    def role(self, a):
        """Symbols for sizes that agree by construction."""
        x = self.outsize(a)
        if x is not None:
            return x
        if a[0] == 'div' and a[1][0] == 'p' and a[2][0] == 'p':
            v = self.vecof(a[1])
            sz = pconst(a[2])
            if v is None or sz is None:
                return None
            va, tag = v
            base, off = root_off(va)
            if base == self.this and tag is None and (off, sz) in ((FMT, 32), (MAP, 24)):
                return self.NS
            if base == self.this and off == VERTS and sz == 24 and isinstance(tag, int):
                i = self.g.fn.insts.get(tag)
                if i is not None and self.classify(i) == 'verts.resize':
                    return self.canont(self.g.args(i)[1])
            if tag is None:
                for o, s1, s2 in ((FMT, 32, 40), (MAP, 24, 88)):
                    if sz == s2:
                        k = padd(va, self.field(o), -1)
                        d = list(k[2])
                        if len(d) == 1 and d[0][1] == s1:
                            return self.NE(P(64, {d[0][0]: 1}))
                        if not d:
                            return self.NE(K(64, 0))
        if a[0] == 'ult' and a[1][0] == a[2][0] == 'p':
            pass
        return None

    @property
    def rf(self):
        if not hasattr(self, '_rf'):
            self._rf = lambda x: self.role(x)
        return self._rf

    def canont(self, t):
        return self.c.subst(t, self.rf)

    def canonb(self, n):
        """Condition with canonical quantifiers and sizes."""
        key = n
        if key not in self.rmemo:
            self.rmemo[key] = self.c.bsubst(self.pre(n), self.rf)
        return self.rmemo[key]

    def pre(self, n):
        """Loop quantifiers with the size symbols as ranges, so that loops over the same range have the same name."""
        return self.norm2(n, 0)

    def norm2(self, n, depth):
        B, g = self.B, self.g

        def f(a):
            if a[0] == 'ex':
                l = g.loops[a[1]]
                if l.trip is None:
                    return None
                iv, q = ('iv', a[1]), ('qv', depth)
                body = self.c.bsubst(self.norm2(a[2], depth + 1), self.c.renamer(iv, q))
                trip = self.canont(l.trip)
                return ('EX', trip, body)
            return None
        memo = {}

        def go(x):
            if x <= 1:
                return x
            if x not in memo:
                v, lo, hi = B.nodes[x]
                y = f(B.atoms[v])
                memo[x] = B.ite(B.var(B.atoms[v] if y is None else y), go(hi), go(lo))
            return memo[x]
        return go(n)

    def free(self, x):
        """Counters that are not bound are inputs of the comparison."""
        m = {('iv', l.id): ('sym', 'K', l.id) for l in self.g.loops}
        return self.g.rename(x, m)

    def beq(self, f, spec, under=1):
        a, b, u = (self.free(('b', self.canonb(x)))[1] for x in (f, spec, under))
        return self.c.beq(a, b, u)

    def teq(self, t, spec, under=1):
        u = self.free(('b', self.canonb(under)))[1]
        return self.c.teq(self.free(self.canont(t)), self.free(self.canont(spec)), u)

    def put(self, r, rule, what, s, d, at=None):
        r.put(s, rule, '%s %s' % (self.name, what), d, at.where() if at is not None else self.g.fn.dem)

    def same(self, t, spec):
        """Equal after substitution of the roles."""
        return t == spec or self.free(self.canont(t)) == self.free(self.canont(spec))

    def nest(self, e):
        """Loops around e, innermost first."""
        l, out = self.ctx(e), []
        while l is not None:
            out.append(l)
            l = l.parent
        return out

    def iv(self, l, w=64):
        return A(w, ('iv', l.id))

    def places(self, e):
        """Candidates (k, l) for the output stream and element that the loops around e visit."""
        ls = self.nest(e)
        out = []
        for a in ls:
            for b in ls:
                if a is b or a.trip is None or b.trip is None:
                    continue
                k, l = self.iv(a), self.iv(b)
                if self.canont(a.trip) == self.NS and self.canont(b.trip) == self.canont(self.NE(k)):
                    out.append((k, l, a, b))
        return out

    def positions(self, e):
        """Candidates for the index position: each is visited exactly once, in order."""
        ls = self.nest(e)
        out = []
        ic = self.IC
        for a in ls:
            if a.trip is None or a.trip[0] != 'p':
                continue
            if self.canont(a.trip) == ic:
                out.append((self.iv(a, 32), [a]))
            for b in ls:
                if b.trip is None or b.trip[0] != 'p' or a is b:
                    continue
                # a: primitives, b: vertices of one primitive
                if b.trip[1] == 32 and a.trip == self.g.divterm('div', ic, b.trip):
                    out.append((padd(self.iv(b, 32), pmul(b.trip, self.iv(a, 32))), [a, b]))
        return out


def convs(ws, r, prims=range(7), types=range(3), keep=()):
    m = module(ws, [('conv|%d|%d' % (p, t), 'vfc::Converter::convert()', {}, {0: {PRIM: p, ITYPE: t}})
                    for p in prims for t in types], keep=KEEP + list(keep))
    if not layout_ok(m):
        raise AnalysisError('members of Converter are laid out differently than the rules expect')
    for p in prims:
        for t in types:
            r.count('configurations')
            try:
                yield Conv(m, p, t)
            except AnalysisError:
                raise


# ------------------------------------------------------------------ V03
def c_v03(ws, r):
    for C in convs(ws, r):
        v03(r, C)


def spec_ok(C):
    """Condition under which convert() succeeds."""
    g, B = C.g, C.B
    q0, q1, q2 = C.q(0), C.q(1), C.q(2, 32)
    valid = B.NOT(g.cmp('eq', padd(C.field(FMT + 8), C.field(FMT), -1), K(64, 0)))
    fresh = g.cmp('eq', padd(C.field(VERTS), C.field(VERTS + 8), -1), K(64, 0))
    missing = C.EX(C.NS, C.EX(C.NE(q0), g.cmp('eq', C.element(q0, q1), K(64, 0))))
    rs = C.isrestart(q0, q1, q2)
    bad = B.ite(rs, 1 if C.t == 0 else 0, C.outside(q0, q1, q2))
    bad = C.EX(C.NS, C.EX(C.NE(q0), C.EX(C.IC, bad)))
    return valid, fresh, B.NOT(missing), B.NOT(bad)


def v03(r, C):
    g, B = C.g, C.B
    rv = retval(g)
    if rv is None or rv[0] != 'b' or C.giname is None:
        r.und('result', C.name, 'no boolean result')
        return
    ret = rv[1]
    ok = B.AND(*spec_ok(C))
    fl = {x for x in C.c.walk(('b', ret)) if x[0] == 'ld' and C.c.foreign(x)}
    if len(fl) == 1:
        # a flag that tells whether the conversion was done
        x, = fl
        sets = [e for e in C.kind.get('store', []) if g.term(e.ops[1], C.ctx(e)) == x[2]]
        done = 0
        for e in sets:
            done = B.OR(done, C.closed(e.bb))
        if sets and all(pconst(g.term(e.ops[0], C.ctx(e))) == 1 for e in sets):
            sym = ('sym', 'done')
            s, d = C.beq(*[C.c.bsubst(n, lambda y: sym if y == x else None) for n in (done, ret)])
            if s == 'violation':
                C.put(r, 'result', 'remembered', s, 'remembers that output was produced although it was not, or the other way around; ' + d, sets[0])
            elif s == 'ok':
                was = [C.c.bsubst(ret, lambda y: K(8, 1) if y == x else None), C.c.bsubst(ret, lambda y: K(8, 0) if y == x else None)]
                ret = B.ite(spec_ok(C)[1], was[1], was[0])
    s, d = C.beq(ret, ok)
    C.put(r, 'result', '', s, d)
    logs = 0
    for e in C.kind.get('log', []):
        logs = B.OR(logs, C.closed(e.bb))
    r.count('error reports', len(C.kind.get('log', [])))
    s, d = C.beq(logs, B.NOT(ret))
    C.put(r, 'error-exactly-on-failure', '', s, d)
    n = 0
    for k, es in C.kind.items():
        if not (k.startswith(('verts.', 'inds.', 'idata.')) or k == 'store' or k == 'insert'):
            continue
        for e in es:
            if k == 'store':
                b, o = g.abase(e.ops[1])
                if b is not None and not (b == ('arg', 0) and (o is None or VERTS <= o < IDATA + 24)):
                    continue
                if b is None and not any(x[0] == ('arg', 0) and x[1] in (VERTS, INDS, IDATA) for x in g.vorigin(e.ops[1])):
                    continue
            if k == 'insert':
                b, o = g.abase(e['args'][0])
                if b is None and not any(x[0] == ('arg', 0) and x[1] in (VERTS, INDS, IDATA) for x in g.vorigin(e['args'][0])):
                    continue
                if b is not None and b != ('arg', 0):
                    continue
            n += 1
            s, d = C.beq(B.AND(C.closed(e.bb), B.NOT(ret)), 0)
            C.put(r, 'no-output-on-failure', k + ' ' + e.loc(), s, d, e)
    r.count('writes to the output', n)
    # the output can be seen by the next call
    vs = [e for e in C.kind.get('verts.resize', []) if C.ctx(e) is None]
    st = [C.beq(C.closed(e.bb), ret) + (e,) for e in vs if C.same(C.args(e)[1], C.NS)]
    if any(s == 'ok' for s, d, e in st):
        C.put(r, 'marks-done', '', 'ok', '')
    else:
        r.und('marks-done', C.name, 'output streams are created in a way that is not understood')


# ------------------------------------------------------------------ V04, V05
def decode_calls(C):
    """fromData() calls with (k, l, position) of the element they decode, or None."""
    g = C.g
    for e in C.kind.get('fromData', []):
        a = C.args(e)
        found, near = None, None
        if len(a) == 4 and C.giname:
            for k, l, lk, ll in C.places(e):
                for i, ls in C.positions(e):
                    near = near or (k, l, i)
                    if C.same(a[1], source(C, k, l, i)):
                        found = (k, l, i)
        yield e, a, found, near


def source(C, k, l, i):
    """Address of the source element: vertex of its own stream that its own index selects."""
    g = C.g
    s = C.stream(k, l)
    t = padd(g.initial(s, 'i64'), pmul(g.cast('zext', C.index(k, l, i), 64, 32),
                                       g.cast('zext', g.initial(padd(s, K(64, 40)), 'i32'), 64, 32)))
    return padd(t, g.cast('zext', g.initial(padd(C.element(k, l), K(64, 36)), 'i32'), 64, 32))


def index_calls(C, t):
    """getIndexValue() calls that t depends on."""
    return [a for a in subterms(t) if isinstance(a, tuple) and a and a[0] == 'call' and C.gi(a[1])]


def facts(C, e, k, l, i):
    """What the checks that were passed before e say about position i of element (k, l): instances of negated quantified
    conditions that hold at e."""
    g, B = C.g, C.B
    full = C.canonb(C.full(e))
    r = 1
    for v in B.support(full):
        a = B.atoms[v]
        if a[0] != 'EX' or not B.implies(full, B.NOT(B.var(a))):
            continue
        # exists k < NS, l < NE(k), i < IC: body
        if a[1] != C.NS:
            continue
        b1 = ren(C, a[2], {('qv', 0): k})
        for w in B.support(b1):
            c = B.atoms[w]
            if c[0] != 'EX' or B.AND(B.var(c), B.NOT(b1)) != 0 or C.canont(c[1]) != C.canont(C.NE(k)):
                continue
            b2 = ren(C, c[2], {('qv', 1): l})
            for x in B.support(b2):
                d = B.atoms[x]
                if d[0] != 'EX' or B.AND(B.var(d), B.NOT(b2)) != 0 or C.canont(d[1]) != C.IC:
                    continue
                def at(x):
                    if x[0] == 'call' and len(x) == 3 and x[1] == C.giname and x[2][2] == C.q(2):
                        return x[:2] + (x[2][:2] + C_widen(g, i),)
                    return None
                r = B.AND(r, B.NOT(C.c.bsubst(d[2], at)))
    return r


def foreign_check(C, e):
    """A passed check of indices that is arranged in a way the rule does not follow."""
    B = C.B
    full = C.canonb(C.full(e))

    def idx(n):
        return any(x[0] == 'call' and C.gi(x[1]) for v in B.support(n) for x in C.c.walk(B.atoms[v]) if len(x) > 1 and
                   isinstance(x[1], str))
    for v in B.support(full):
        a = B.atoms[v]
        if a[0] in ('ex', 'EX') and idx(a[2]):
            if a[0] == 'ex' or a[1] != C.NS:
                return 'a check over ' + show(a[1], B) if a[0] == 'EX' else 'a check in a loop with unknown bounds'
            for w in B.support(a[2]):
                c = B.atoms[w]
                if c[0] == 'ex' or c[0] == 'EX' and idx(c[2]) and C.canont(c[1]) != C.NE(C.q(0)):
                    return 'a check in a loop that is not over the elements'
        elif a[0] not in ('EX', 'ex') and any(x[0] in ('bphi', 'hphi', 'opq', 'irr', 'cyc') for x in C.c.walk(a)):
            return 'a condition that is not understood'
    return None


def ren(C, n, m):
    """Substitute terms for bound counters in a condition."""
    def f(x):
        return m.get(x)
    return C.c.bsubst(n, f)


def c_v04(ws, r):
    for C in convs(ws, r):
        v04(r, C)


def v04(r, C):
    g, B = C.g, C.B
    n = 0
    for e, a, found, near in decode_calls(C):
        n += 1
        r.count('reads of vertex data')
        calls = index_calls(C, a[1]) if len(a) > 1 else []
        nm = 'line ' + e.loc().split(':')[-1]
        if len(calls) != 1:
            r.und('checked', '%s %s' % (C.name, nm), 'address depends on %d index reads' % len(calls), e.where())
            continue
        idx = A(32, calls[0])
        # the stream whose data is read
        sb = [s for s in (C.stream(k, l) for k, l, _, _ in C.places(e))]
        done = False
        for k, l, _, _ in C.places(e):
            cnt = C.count(k, l)
            inside = g.cmp('ult', idx, cnt)
            bad = B.AND(C.canonb(C.full(e)), B.NOT(C.canonb(inside)))
            if found is None or found[:2] == (k, l):
                fs = 1
                for i, _ in C.positions(e):
                    if A(32, calls[0]) == C.index(k, l, i):
                        fs = B.AND(fs, facts(C, e, k, l, i))
                s, d = C.beq(B.AND(bad, fs), 0)
                fc = foreign_check(C, e) if s == 'violation' else None
                if fc:
                    s, d = 'undecided', fc
                if s == 'violation':
                    # instances of quantified conditions are not expanded further: only a missing check counts
                    d = 'no check on the way here keeps the index below the vertex count; ' + d
                C.put(r, 'checked', nm, s, d, e)
                done = True
                break
        if not done:
            r.und('checked', '%s %s' % (C.name, nm), 'position of the read is not understood', e.where())
    if n == 0:
        r.und('checked', C.name, 'no reads found')


def c_v05(ws, r):
    for C in convs(ws, r):
        v05(r, C)


def best(results):
    """The result for the candidate that agrees, otherwise the first one."""
    first = None
    for x in results:
        if x[0] == 'ok':
            return x
        first = first or x
    return first


def pick(cands, test):
    for c in cands:
        if test(c):
            return c
    return None


def v05(r, C):
    g, B = C.g, C.B
    reads = []
    for e, a, found, near in decode_calls(C):
        r.count('reads')
        nm = 'line ' + e.loc().split(':')[-1]
        if near is None or len(a) != 4:
            r.und('source', '%s %s' % (C.name, nm), 'loops around the read are not understood', e.where())
            continue
        k, l, i = found or near
        reads.append((e, k, l, i))
        el = C.element(k, l)
        cond = C.full(e)
        for what, t, spec in (('address', a[1], source(C, k, l, i)),
                              ('layout', a[2], g.initial(padd(el, K(64, 32)), 'i8')),
                              ('type', a[3], g.initial(padd(el, K(64, 33)), 'i8'))):
            s, d = C.teq(t, spec, cond)
            C.put(r, 'source-' + what, nm, s, d, e)
    local = set()
    for e in C.kind.get('toData', []):
        r.count('writes')
        nm = 'line ' + e.loc().split(':')[-1]
        a = C.args(e)
        src = [x for x in reads if C.ctx(x[0]) is C.ctx(e) and g.fn.dominates(x[0].bb, e.bb)]
        if len(src) != 1 or len(a) < 4 or a[1][0] != 'p':
            r.und('destination', '%s %s' % (C.name, nm), 'value is not read in the same place', e.where())
            continue
        rd, k, l, i = src[0]
        fe = C.fmtel(k, l)
        cond = C.full(e)
        for what, t, spec in (('layout', a[2], g.initial(padd(fe, K(64, 32)), 'i8')),
                              ('type', a[3], g.initial(padd(fe, K(64, 33)), 'i8'))):
            s, d = C.teq(t, spec, cond)
            C.put(r, 'destination-' + what, nm, s, d, e)
        # address: data of the k-th vector of a local array of vertices plus the offset of the element
        off = g.cast('zext', g.initial(padd(fe, K(64, 36)), 'i32'), 64, 32)
        vecs = [x for x in subterms(a[1]) if isinstance(x, tuple) and x and x[0] in ('ldv', 'ld') and
                any(isinstance(y, tuple) and y and y[0] == 'alloca' for y in subterms(x[2]))]
        tops = [x for x in vecs if not any(x is not y and x in list(subterms(y)) for y in vecs)]
        if len(tops) != 1:
            r.und('destination-address', '%s %s' % (C.name, nm), 'vertex is not assembled in one local vector per stream', e.where())
            continue
        base = [x for x in vecs if x is not tops[0]]
        arr = [patom(root_off(x[2])[0]) for x in base if x[2][0] == 'p' and patom(root_off(x[2])[0])]
        if not base or not arr:
            r.und('destination-address', '%s %s' % (C.name, nm), 'vertex is not assembled in one local vector per stream', e.where())
            continue
        want = A(64, tops[0][:2] + (padd(A(64, base[0]), pmul(k, K(64, 24))),) + tops[0][3:])
        s, d = C.teq(a[1], padd(want, off), cond)
        C.put(r, 'destination-address', nm, s, d, e)
        local.add(arr[0])
    if len(local) == 1:
        assembled(r, C, local.pop())
    elif C.kind.get('toData'):
        r.und('assembled', C.name, 'vertices are assembled in more than one place')


def assembled(r, C, arr):
    """The assembled vertex has the stride of its stream and is appended to it as a whole, for every position that is not a
    primitive restart."""
    g, B = C.g, C.B
    n = 0
    for e in C.kind.get('vec.resize', []):
        a = C.args(e)
        if not any(x == (arr, 0) for x in g.vorigin(e['args'][0])) or a[0][0] != 'p':
            continue
        n += 1
        ks = [(C.iv(l), l) for l in C.nest(e) if l.trip is not None and C.canont(l.trip) == C.NS]
        if not ks:
            r.und('vertex-size', C.name, 'loop is not understood', e.where())
            continue
        k = ks[0][0]
        s, d = C.teq(a[1], g.cast('zext', C.stride(k), 64, 32), C.full(e))
        C.put(r, 'vertex-size', 'line ' + e.loc().split(':')[-1], s, d, e)
    if n == 0:
        r.und('vertex-size', C.name, 'size of the assembled vertex is not understood')
    ins = 0
    for e in C.kind.get('insert', []):
        a = C.args(e)
        if not any(x == ('*', frozenset({(arr, 0)})) for x in g.vorigin(e['args'][2])):
            continue
        ins += 1
        nm = 'line ' + e.loc().split(':')[-1]
        ks = [(C.iv(l), l) for l in C.nest(e) if l.trip is not None and C.canont(l.trip) == C.NS]
        if not ks:
            r.und('appended', '%s %s' % (C.name, nm), 'loop over the streams is not understood', e.where())
            continue
        k, lk = ks[0]
        src = [x for x in subterms(a[2]) if isinstance(x, tuple) and x and x[0] == 'ldv' and patom(root_off(x[2])[0]) == arr]
        if len(src) != 1:
            r.und('appended', '%s %s' % (C.name, nm), 'source is not understood', e.where())
            continue
        el = padd(A(64, src[0]), pmul(k, K(64, 24)))
        vb = C.field(VERTS, 'i64', e)
        dst = padd(vb, pmul(k, K(64, 24)))
        for what, t, spec in (('begin', a[2], C.ld(el, 'i64', e)), ('end', a[3], C.ld(padd(el, K(64, 8)), 'i64', e)),
                              ('stream', a[0], dst), ('position', a[1], C.ld(padd(dst, K(64, 8)), 'i64', e))):
            s, d = C.teq(t, spec, C.full(e))
            C.put(r, 'appended-' + what, nm, s, d, e)
        # for every position unless it is a restart
        i = [c for c in C.positions(e)]
        if not i:
            r.und('appended-always', '%s %s' % (C.name, nm), 'positions are not understood', e.where())
            continue
        cond = B.AND(g.cond(e.bb), g.region_reach(lk.parent).get(g.nkey(lk), 0))
        q0, q1 = C.q(0), C.q(1)
        s, d = best(C.beq(cond, B.NOT(C.EX(C.NS, C.EX(C.NE(q0), C.isrestart(q0, q1, x))))) for x, ls in i)
        C.put(r, 'appended-always', nm, s, d, e)
    if ins == 0:
        r.und('appended', C.name, 'vertices are appended in a way that is not understood')


# ------------------------------------------------------------------ V06
def local(p):
    """Address of local memory."""
    return p[0] == 'p' and (patom(root_off(p)[0]) or ('',))[0] == 'alloca'


def value_at(C, p, c, at, cond):
    """Component c of the value at p before instruction at, under the condition."""
    return C.c.restrict(C.ld(padd(p, K(64, 8*c)), 'double', at), cond)


def decoded(C, rd, c):
    """Component c of the value that call rd decoded."""
    return C.g.initial(padd(C.args(rd)[0], K(64, 8*c)), 'double', rd.id)


def c_v06(ws, r):
    for C in convs(ws, r):
        v06(r, C)
    initial_bounds(ws, r)
    bounds_accessors(ws, r)


def skips(C, e, addr):
    """The counter of the innermost loop that gives the index of the vertex is the position, but moves on by more than
    one in some trips: what the trip does with one position isn't done with the next."""
    g, B = C.g, C.B
    l = C.ctx(e)
    calls = index_calls(C, addr)
    if l is None or len(calls) != 1:
        return None
    for pid, (i0, t) in l.update.items():
        if i0[0] != 'p' or pconst(i0) != 0 or t[0] not in ('ite', 'multi'):
            continue
        me = A(t[1][0][1][1] if t[0] == 'ite' else t[1][0][1], g.hphi(g.fn.insts[pid]))
        steps = []
        for c, x in ([(c, x) for c, x in t[1]] if t[0] == 'ite' else [(1, x) for x in t[1]]):
            s = padd(x, me, -1) if x[0] == 'p' else None
            steps.append((c, pconst(s) if s is not None else None))
        if any(s is None for c, s in steps) or not any(s == 1 for c, s in steps):
            continue
        more = [(c, s) for c, s in steps if 1 < s < 16 and c != 0]
        at = [A(32, calls[0]) == C.index(k, ll, me if me[1] == 32 else g.cast('trunc', me, 32, me[1])) for k, ll, _, _ in C.places(e)]
        if more and any(at):
            return 'moves on by %d positions at once, without a look at those in between' % more[0][1]
    return None


def v06(r, C):
    g, B = C.g, C.B
    rv = retval(g)
    reads = list(decode_calls(C))
    good = []
    passes = C.kind.get('expandBounds', [])
    for e in passes:
        r.count('places that expand bounds')
        nm = 'line ' + e.loc().split(':')[-1]
        a = C.args(e)
        src = [x for x in reads if C.ctx(x[0]) is C.ctx(e) and g.fn.dominates(x[0].bb, e.bb)]
        pl = C.places(e)
        ps = C.positions(e)
        ls = C.nest(e)
        if len(src) == 1 and len(pl) == 1 and not ps and len(passes) == 1 and len(ls) == 3:
            x = next(y for y in ls if y not in pl[0][2:])
            if x.trip is not None and x.trip[0] in ('p', 'ite') and x is C.ctx(e):
                t = x.trip if x.trip[0] == 'p' and x.trip[1] == 64 else lift(C, lambda y: g.cast('zext', y, 64, y[1]) if y[1] < 64 else y, x.trip)
                ic = g.cast('zext', C.IC, 64, 32)
                st, d = C.teq(t, ic, B.AND(*spec_ok(C)))
                if st == 'violation':
                    C.put(r, 'pass', nm, st, 'the only pass over the indices does not visit all of them; ' + d, e)
                    continue
        sk = skips(C, e, src[0][1][1]) if len(src) == 1 and not ps and len(passes) == 1 else None
        if sk:
            C.put(r, 'pass', nm, 'violation', sk, e)
            continue
        if len(src) != 1 or not pl or not ps:
            r.und('pass', '%s %s' % (C.name, nm), 'loops around the bounds are not understood', e.where())
            continue
        rd, ra, found, near = src[0]
        k, l = (found or near)[:2] if found or near else pl[0][:2]
        full = C.full(e)
        # the value is the element that was just read
        res = [C.teq(ra[1], source(C, k, l, i), full) for i, _ in ps]
        s, d = best(res)
        C.put(r, 'value-source', nm, s, d, e)
        for c in range(4):
            s, d = C.teq(value_at(C, a[0], c, e, full), decoded(C, rd, c), full)
            C.put(r, 'value-unmodified', '%s component %d' % (nm, c), s, d, e)
        for w, off in (('minimum', 24), ('maximum', 56)):
            p = a[1 if off == 24 else 2]
            s, d = C.teq(p, padd(C.ref(k, l), K(64, off)), full)
            if s == 'violation' and local(p):
                s, d = 'undecided', 'bounds are gathered in local memory'
            C.put(r, 'bounds-of-element', '%s %s' % (nm, w), s, d, e)
        # for every position that is not a restart when the conversion succeeds
        res = []
        for i, _ in ps:
            fs = facts(C, e, k, l, i)
            spec = B.AND(B.NOT(C.isrestart(k, l, i)), B.NOT(C.outside(k, l, i)))
            ctxs = [x for x in C.nest(e)]
            reach = g.cond(e.bb)
            under = 1
            for x in ctxs:
                if x.parent is not None:
                    reach = B.AND(reach, g.region_reach(x.parent).get(g.nkey(x), 0))
            res.append(C.beq(reach, spec))
        s, d = best(res)
        C.put(r, 'every-vertex', nm, s, d, e)
        top = C.nest(e)[-1]
        if rv is not None and rv[0] == 'b':
            early(r, C, e, nm, rv[1], ps)
            s, d = C.beq(B.AND(rv[1], B.NOT(g.region_reach(None).get(g.nkey(top), 0))), 0)
            C.put(r, 'pass-always-done', nm, s, d, e)
        good.append(e)
    if not passes:
        r.und('pass', C.name, 'bounds are gathered in a way that is not understood')
    # nothing that was written could see bounds that still change
    for w in C.kind.get('toData', []):
        for e in passes:
            s, d = 'ok', ''
            if after(g, w, e):
                s, d = 'violation', 'bounds are still expanded (%s) after data was written (%s)' % (e.where(), w.where())
            C.put(r, 'complete-before-use', 'lines %s, %s' % (w.loc().split(':')[-1], e.loc().split(':')[-1]), s, d, e)
    # no other writes to the mapping
    n = 0
    for e in C.kind.get('store', []) + C.kind.get('other', []):
        pt = g.term(e.ops[1], C.ctx(e)) if e.op == 'store' else C.args(e)[0] if e['args'] else None
        if pt is None or pt[0] != 'p' or not any(x == ('ld', 'i64', padd(C.this, K(64, MAP))) for x in subterms(pt)):
            continue
        n += 1
        off = sum(c for k, c in pt[2] if k == ())
        s, d = 'undecided', 'the mapping of elements, which holds the bounds, is written at ' + show(pt)
        if good and e.op == 'store' and 24 <= off < 88 and any(after(g, x, e) for x in good):
            s = 'violation'
        C.put(r, 'only-expanded', 'line ' + e.loc().split(':')[-1], s, d, e)
    if n == 0:
        r.ok('only-expanded', C.name)


def early(r, C, e, nm, ret, ps):
    """The loops around e are not left before their end unless the conversion fails."""
    g, B = C.g, C.B
    ls = C.nest(e)
    pl = [x for x in C.places(e) if any(y[1][0] not in x[2:] and len(y[1]) == 1 for y in ps)]
    if len(ls) != 3 or not pl:
        return
    k, l, lk, ll = pl[0]
    i, li = next((i, x[0]) for i, x in ps if len(x) == 1 and x[0] not in (lk, ll))
    one, none = K(64, 1), K(32, 0)
    some = g.cmp('ult', none, C.IC)
    for x in ls:
        if x is li:
            k2, l2, i2 = k, l, padd(i, K(32, 1))
            more = g.cmp('ult', i2, C.IC)
        elif x is ll:
            k2, l2, i2 = k, padd(l, one), none
            more = B.AND(some, g.cmp('ult', l2, C.NE(k)))
        else:
            k2, l2, i2 = padd(k, one), K(64, 0), none
            more = B.AND(some, g.cmp('ult', k2, C.NS), g.cmp('ult', l2, C.NE(k2)))
        spec = B.AND(more, B.NOT(C.isrestart(k2, l2, i2)), B.NOT(C.outside(k2, l2, i2)))
        for u, v in x.exits:
            if (u, v) == x.trip_edge:
                continue
            c, y = B.AND(g.edge(u, v, x), spec), x
            while y is not None:
                c = B.AND(g.region_reach(y.parent).get(g.nkey(y), 0), B.var(('ex', y.id, c)) if c else 0)
                y = y.parent
            s, d = C.beq(B.AND(ret, c), 0)
            if s == 'violation':
                d = 'the pass over the vertices ends early although the conversion may succeed; ' + d
            C.put(r, 'every-vertex', '%s left at line %s' % (nm, g.fn.term(u).loc().split(':')[-1]), s, d, e)


def after(g, a, b):
    """Instruction b may run after instruction a."""
    if a.bb == b.bb and b.idx > a.idx:
        return True
    return any(b.bb in g.fn.reach(x) for x in g.fn.succ[a.bb])


FIND = lambda d: d.startswith('vfc::VertexFormat::find(')


def initial_bounds(ws, r, bounds=True):
    """New elements start with the initial bounds and without transform or source."""
    m = ctor_module(ws, [(0, 0)])
    F = Fn(m, 'ctor|0|0', **CTOR)
    g = F.g
    n = 0
    for i, c in F.calls():
        mm = MUTV.match(i.get('dem', ''))
        if not mm or not i['args']:
            continue
        a = g.args(i)
        if a[0] != padd(F.arg(0), K(64, MAP)) or mm.group(1) not in ('emplace_back', 'push_back'):
            continue
        n += 1
        el = a[-1]
        rule = 'starts-empty' if bounds else 'default'
        if len(a) != 3:
            r.und(rule, mm.group(1), 'way of creating the elements', i.where())
            continue
        cx = g.loop_of[i.bb]
        for c in range(4 if bounds else 0):
            for nm, off in (('Min', 24), ('Max', 56)):
                t = g.value_before(padd(el, K(64, off + 8*c)), 'double', i, cx)
                inst = 'initialBounds%s component %d' % (nm, c)
                src = [x for x in subterms(t) if isinstance(x, tuple) and x and x[0] == 'glob']
                at = [x for x in atoms_of(t)] if t[0] == 'f' else []
                if len(src) == 1 and 'initialBounds' in src[0][1] and len(at) == 1 and t == FA(at[0]):
                    ok = 'initialBounds' + nm in src[0][1] and root_off(at[0][2])[1] == 8*c
                    r.put('ok' if ok else 'violation', 'starts-empty', inst, '' if ok else 'starts as ' + show(t), i.where())
                elif t[0] == 'f' and not at and abs(sum(x for _, x in t[1])) < 1 << 1023:
                    r.bad('starts-empty', inst, 'starts as %g' % float(sum(x for _, x in t[1])), i.where())
                else:
                    r.und('starts-empty', inst, 'starts as ' + show(t), i.where())
        for nm, off, ty, v in (('element', 8, 'i64', 0), ('transform', 16, 'i32', 0))[0 if bounds else 1:]:
            t = g.value_before(padd(el, K(64, off)), ty, i, cx)
            s, d = F.c.teq(t, K(64 if off == 8 else 32, v)) if t[0] == 'p' else ('undecided', '')
            r.put(s, rule, nm, d, i.where())
    if n == 0:
        r.und('starts-empty' if bounds else 'default', 'anchors', 'the elements are created in a way that is not understood')


def accessor_fn(ws, names):
    m = module(ws, [('s|' + k, k, {}) for k in names], keep=['^vfc::VertexFormat::find\\(char'])
    for k in names:
        if 's|' + k not in m.funcs:
            raise AnalysisError(k + ' not found')
        yield k, Fn(m, 's|' + k, [FIND], member_sizes=[(lambda d: VECM.match(d), 24)])


def mapped(F, k, l, off):
    """Address of a field of the mapping of element l of stream k."""
    mp = F.ld(F.arg(0), MAP)
    return padd(padd(F.g.initial(padd(mp, pmul(k, K(64, 24))), 'i64'), pmul(l, K(64, 88))), K(64, off))


def named(F, arg):
    """(stream, element, found) for a search of the streams by name: stream counters of the loops."""
    g, B = F.g, F.B
    out = []
    for e in F.calls():
        if not FIND(e[0].get('dem', '')):
            continue
        l = g.loop_of[e[0].bb]
        if l is None:
            continue
        def at(k):
            f = padd(F.ld(F.arg(0), FMT), pmul(k, K(64, 32)))
            x = A(64, ('call', e[0]['dem'], (f, F.arg(arg))))
            i = g.divterm('div', padd(x, g.initial(f, 'i64'), -1), K(64, 40))
            return k, i, B.NOT(g.cmp('eq', x, g.initial(padd(f, K(64, 8)), 'i64')))
        k, i, found = at(A(64, ('iv', l.id)))
        k2, i2, found2 = at(A(64, ('kx', l.id)))
        ex = B.var(('ex', l.id, found))
        ns = g.divterm('div', padd(F.ld(F.arg(0), FMT + 8), F.ld(F.arg(0), FMT), -1), K(64, 32))
        if l.trip is None or l.trip != ns:
            d = sconst(padd(l.trip, ns, -1)) if l.trip is not None and l.trip[0] == 'p' and l.trip[1] == 64 else None
            if d is not None and d and len([x for x in F.calls() if FIND(x[0].get('dem', ''))]) == 1:
                F.past = e[0], '%d streams %s visited' % (abs(d), 'too many are' if d > 0 else 'are not')
            continue
        out.append((l, (k, i, found), (k2, i2), ex))
    return out


def bounds_accessors(ws, r):
    for k, F in accessor_fn(ws, ['vfw_getBounds', 'vfw_getBoundsN']):
        g, B = F.g, F.B
        r.count('accessors')
        byname = k.endswith('N')
        nm = 'by name' if byname else 'by number'
        cand = named(F, 3) if byname else [(None, (F.arg(3), F.arg(4), 1), None, 1)]
        if not cand and hasattr(F, 'past'):
            r.put('violation', 'reported', nm, F.past[1], F.past[0].where())
            continue
        if not cand:
            r.und('reported', nm, 'search is not understood', F.where())
            continue
        l, (ks, ie, found), _, ex = cand[0]
        if byname:
            putb(r, F, 'reported', nm + ' result', g.asbool(F.ret()), ex)
        for arg, off, w in ((1, 24, 'minimum'), (2, 56, 'maximum')):
            n = 0
            for i, c in effects(g):
                if i.op not in ('call', 'invoke', 'store'):
                    continue
                dst = g.term(i.ops[1], g.loop_of[i.bb]) if i.op == 'store' else g.args(i)[0] if i['args'] else None
                if dst is None or dst[0] != 'p' or root_off(dst)[0] != F.arg(arg):
                    continue
                o = root_off(dst)[1]
                src = None
                if i.op != 'store' and 'memcpy' in i.get('dem', ''):
                    src, ln = g.args(i)[1], pconst(g.args(i)[2])
                elif i.op == 'store':
                    v = g.term(i.ops[0], g.loop_of[i.bb])
                    at = atoms_of(v) if v[0] == 'f' else []
                    at = [x for x in at]
                    if len(at) == 1 and v == FA(at[0]) and at[0][0] in ('ld', 'ldv'):
                        src, ln = at[0][2], 8
                if src is None:
                    r.und('reported', '%s %s' % (nm, w), 'value', i.where())
                    continue
                n += ln
                putt(r, F, 'reported', '%s %s' % (nm, w), padd(src, K(64, o), -1), mapped(F, ks, ie, off), found, where=i.where())
                putb(r, F, 'reported', '%s %s always' % (nm, w), B.AND(found, B.NOT(g.cond(i.bb))), 0, where=i.where())
            if n != 32:
                r.und('reported', '%s %s' % (nm, w), '%d bytes are understood' % n, F.where())


# ------------------------------------------------------------------ V07
TRANSFORMS = ['Identity', 'Bounds', 'UNormToSNorm', 'SNormToUNorm']


def c_v07(ws, r):
    for C in convs(ws, r):
        v07(r, C)
    transform_accessors(ws, r)
    initial_bounds(ws, r, False)


def v07(r, C):
    g, B = C.g, C.B
    reads = list(decode_calls(C))
    writes = C.kind.get('toData', [])
    groups = {}
    for e in writes:
        src = [x for x in reads if C.ctx(x[0]) is C.ctx(e) and g.fn.dominates(x[0].bb, e.bb)]
        if len(src) != 1 or not (src[0][2] or src[0][3]):
            r.und('transform', '%s line %s' % (C.name, e.loc().split(':')[-1]), 'value is not read in the same place', e.where())
            continue
        groups.setdefault(src[0][0].id, (src[0], []))[1].append(e)
    if not writes:
        r.und('transform', C.name, 'no writes found')
    for rd, es in groups.values():
        k, l, i = rd[2] or rd[3]
        tr = g.initial(padd(C.ref(k, l), K(64, 16)), 'i32')
        for T, tn in enumerate(TRANSFORMS):
            isT = g.cmp('eq', tr, K(32, T))
            did = 0
            for e in es:
                cond = B.AND(C.full(e), isT)
                if C.beq(cond, 0)[0] == 'ok':
                    continue
                did = B.OR(did, g.cond(e.bb))
                r.count('writes per transform')
                a = C.args(e)
                nm = '%s line %s' % (tn, e.loc().split(':')[-1])
                s, d = 'ok', ''
                if (len(a) == 6) != (T == 1):
                    s, d = 'violation', 'written %srelative to bounds' % ('' if len(a) == 6 else 'without being ')
                    if 'toData' not in e.get('dem', '') or len(a) not in (4, 6) or C.beq(cond, 0)[0] != 'violation':
                        s = 'undecided'
                C.put(r, 'kind', nm, s, d, e)
                if len(a) == 6:
                    for x, off, w in ((a[4], 24, 'minimum'), (a[5], 56, 'maximum')):
                        want = padd(C.ref(k, l), K(64, off))
                        s, d = C.teq(x, want, cond)
                        if s != 'ok' and local(x):
                            res = [C.teq(value_at(C, x, c, e, cond), C.ld(padd(want, K(64, 8*c)), 'double', e), cond) for c in range(4)]
                            bad = [y for y in res if y[0] != 'ok']
                            s, d = ('ok', '') if not bad else ('undecided', 'copy of the bounds')
                        C.put(r, 'relative-to', '%s %s' % (nm, w), s, d, e)
                for c in range(4):
                    v = decoded(C, rd[0], c)
                    want = {0: v, 1: v, 2: g.farith('fadd', g.farith('fmul', v, FK(2)), FK(-1)),
                            3: g.farith('fadd', g.farith('fmul', v, FK(Fr(1, 2))), FK(Fr(1, 2)))}[T]
                    s, d = C.teq(value_at(C, a[0], c, e, cond), want, cond)
                    C.put(r, 'mapped-value', '%s component %d' % (nm, c), s, d, e)
            spec = B.AND(isT, B.NOT(C.isrestart(k, l, i)))
            s, d = C.beq(B.AND(spec, g.cond(rd[0].bb), B.NOT(did)), 0)
            C.put(r, 'always-written', tn, s, d, rd[0])


def transform_accessors(ws, r):
    for k, F in accessor_fn(ws, ['vfw_getTransform', 'vfw_getTransformN', 'vfw_setTransform', 'vfw_setTransformN']):
        g, B = F.g, F.B
        r.count('accessors')
        byname = k.endswith('N')
        inst = ('get' if 'get' in k else 'set') + (' by name' if byname else ' by number')
        cand = named(F, 1) if byname else [(None, (F.arg(1), F.arg(2), 1), (F.arg(1), F.arg(2)), 1)]
        if not cand and hasattr(F, 'past'):
            r.put('violation', 'accessor', inst, F.past[1], F.past[0].where())
            continue
        if not cand:
            r.und('accessor', inst, 'search is not understood', F.where())
            continue
        l, (ks, ie, found), (kx, ix), ex = cand[0]
        if 'get' in k:
            x = g.initial(mapped(F, kx, ix, 16), 'i32')
            spec = g.mkite([(ex, x), (B.NOT(ex), K(32, 0))]) if byname else x
            putt(r, F, 'accessor', inst, F.ret(), spec)
            continue
        n = 0
        val = F.arg(2 if byname else 3, 32)
        for i, c in effects(g):
            if i.op != 'store':
                continue
            n += 1
            putt(r, F, 'accessor', inst + ' place', g.term(i.ops[1], g.loop_of[i.bb]), mapped(F, ks, ie, 16), found, where=i.where())
            putt(r, F, 'accessor', inst + ' value', g.term(i.ops[0], g.loop_of[i.bb]), val, where=i.where())
            putb(r, F, 'accessor', inst + ' only then', g.full(i.bb), found, where=i.where())
        if n != 1:
            r.und('accessor', inst, '%d writes' % n, F.where())
        if byname:
            putb(r, F, 'accessor', inst + ' result', g.asbool(F.ret()), ex)


# ------------------------------------------------------------------ V08 to V12
ISZ = [0, 2, 4]
RESTART = [0, 0xffff, 0xffffffff]


def before(C, l):
    """Last instruction before loop l is entered."""
    ps = [b for b in C.g.fn.pred[l.header] if b not in l]
    return C.g.fn.term(ps[0]) if len(ps) == 1 else None


def lift(C, f, *ts):
    r = C.g.lift(f, *ts)
    if r is None:
        raise AnalysisError('too many alternatives')
    return r


def add(C, a, b, s=1):
    return lift(C, lambda x, y: padd(x, y, s), a, b)


def vertex_count(C, at):
    """Number of vertices of the output before instruction at."""
    g = C.g
    v0 = C.field(VERTS, 'i64', at)
    n = add(C, C.ld(add(C, v0, K(64, 8)), 'i64', at), C.ld(v0, 'i64', at), -1)
    st = g.cast('zext', C.stride(K(64, 0)), 64, 32)
    return lift(C, lambda x: g.cast('trunc', g.divterm('div', x, st), 32, 64), n)


def index_bytes(C, at):
    return add(C, C.field(INDS + 8, 'i64', at), C.field(INDS, 'i64', at), -1)


def index_count(C, at):
    """Number of indices written before instruction at."""
    return lift(C, lambda x: C.g.divterm('div', x, K(64, ISZ[C.t])), index_bytes(C, at))


def last_data(C, at, off, ty, back=1):
    """Field of the last index buffer before instruction at: (address, value)."""
    end = C.field(IDATA + 8, 'i64', at)
    alts = end[1] if end[0] == 'ite' else [(1, end)]
    out = [(c, padd(x, K(64, off - 24*back)), C.ld(padd(x, K(64, off - 24*back)), ty, at)) for c, x in alts]
    if end[0] != 'ite':
        return out[0][1:]
    return C.g.mkite([(c, a) for c, a, v in out]), C.g.mkite([(c, v) for c, a, v in out])


def prim_loop(C):
    """Loop over the primitives, from the loops around the appending of vertices."""
    for e in C.kind.get('toData', []):
        for i, ls in C.positions(e):
            return ls[-1], ls[0]
    return None


def primstride(C):
    """Vertices of one primitive."""
    if C.p == 6:
        return C.field(PATCH, 'i32')
    return K(32, [1, 2, 1, 3, 1, 1][C.p])


class Append:
    """Places that add a vertex: the loop that appends the bytes to each stream, the lookup of an equal vertex and the
    removal of a duplicate."""

    def __init__(self, C, s):
        g, fn = C.g, C.g.fn
        self.s = s
        ctx = C.ctx(s)
        self.ins = [e for e in C.kind.get('insert', []) if C.ctx(e) is not None and C.ctx(e).parent is ctx and
                    fn.dominates(C.ctx(e).header, s.bb)]
        # the closest one
        self.ins = [e for e in self.ins if not any(o is not e and fn.dominates(C.ctx(e).header, C.ctx(o).header)
                                                   for o in self.ins)]
        self.loop = C.ctx(self.ins[0]) if len(self.ins) == 1 else None


def c_v08(ws, r):
    for C in convs(ws, r):
        if C.t:
            guard(r, 'shared', C.name, lambda: v08(r, C))
        else:
            r.put('ok' if not C.kind.get('set.insert') else 'undecided', 'not-shared', C.name, 'no lookup without indices')
    vertex_ref(ws, r)


def deps(g, t, stop, seen=None):
    """Atoms that a value depends on, through loop-carried values and conditions.  stop(atom) is true when what the atom
    consists of does not matter."""
    seen = set() if seen is None else seen
    upd = {}
    for l in g.loops:
        for p, i0, u in g.header_updates(l):
            upd[p.id] = (i0, u)
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or x in seen:
            continue
        seen.add(x)
        if x and isinstance(x[0], str) and x[0] not in ('p', 'f', 'b', 'ite', 'multi'):
            yield x
            if stop(x):
                continue
            if x[0] in ('hphi', 'bphi'):
                st += list(upd.get(x[1], ()))
        if x and x[0] == 'b':
            st += [g.B.atoms[v] for v in g.B.support(x[1])]
        elif x and x[0] == 'ite':
            for c, y in x[1]:
                st += [g.B.atoms[v] for v in g.B.support(c)] + [y]
        elif x and x[0] == 'ex':
            st += [g.B.atoms[v] for v in g.B.support(x[2])]
        else:
            st += [y for y in x if isinstance(y, tuple)]


HASHF = lambda d: 'murmurHash' in d
HASHMAX = 48


def vertex_ref(ws, r):
    """Comparison and hash of the vertices in the set."""
    m = module(ws, [('eq', '~::_M_key_equals_tr<.*VertexRef', {}), ('hash', '~::_M_hash_code_tr<.*VertexRef', {})] +
               [('mem|%d' % n, '~murmurHash', {1: n}) for n in range(HASHMAX + 1)], keep=['murmurHash'])
    kw = dict(member_sizes=[(lambda d: VECM.match(d), 24)])

    def vertex(F, a, k):
        """(address, size) of a vertex in the output stream k."""
        g = F.g
        sz = g.cast('zext', F.g.initial(padd(F.ld(F.ld(F.arg(1), 8)), padd(pmul(k, K(64, 32)), K(64, 24))), 'i32'), 64, 32)
        ix = g.cast('zext', F.ld(F.arg(a), 16, 'i32'), 64, 32)
        return padd(g.initial(padd(F.ld(F.ld(F.arg(1))), pmul(k, K(64, 24))), 'i64'), pmul(sz, ix)), sz

    def equality():
        F = Fn(m, 'eq', [lambda d: d in ('memcmp', 'bcmp')], **kw)
        g, B = F.g, F.B
        one = {}
        for ty, o in (('i64', 0), ('i64', 8)):
            one[atom_of(F.ld(F.arg(2), o))] = atom_of(F.ld(F.arg(1), o))
        ret = g.rename(F.ret(), one)
        cm = [i for i, c in F.calls() if i.get('dem') in ('memcmp', 'bcmp')]
        if len(cm) != 1:
            raise AnalysisError('%d comparisons of memory' % len(cm))
        kq = A(64, ('qv', 0))
        spec = None
        for a, b in ((1, 2), (2, 1)):
            x, y = (g.rename(vertex(F, n, kq)[0], one) for n in (a, b))
            call = A(32, ('call', cm[0]['dem'], (x, y, vertex(F, 1, kq)[1])))
            sp = B.NOT(F.EX(g.divterm('div', padd(F.ld(F.ld(F.arg(1)), 8), F.ld(F.ld(F.arg(1))), -1), K(64, 24)),
                          B.NOT(g.cmp('eq', call, K(32, 0)))))
            s, d = F.c.beq(F.canonb(g.asbool(ret)), F.canonb(sp), 1)
            if spec is None or s == 'ok':
                spec = (s, d)
        r.put(spec[0], 'compares-all-bytes', 'equality of vertices', spec[1], F.where())
        r.count('functions')
    guard(r, 'compares-all-bytes', 'equality of vertices', equality)

    def hashed():
        F = Fn(m, 'hash', [HASHF], **kw)
        g, B = F.g, F.B
        ret = F.ret()
        data, fmt, index = (atom_of(F.ld(F.arg(1), o, t)) for o, t in ((0, 'i64'), (8, 'i64'), (16, 'i32')))
        sizes = set()
        ok = True
        r.count('functions')
        for n, (i, c) in enumerate([x for x in F.calls() if HASHF(x[0].get('dem', ''))]):
            a = g.args(i)
            l = g.loop_of[i.bb]
            cand = []
            for k in ([A(64, ('iv', l.id))] if l is not None else []) + [K(64, 0)]:
                ad, sz = vertex(F, 1, k)
                x = F.c.teq(F.canont(a[0]), F.canont(ad), F.canonb(c)), F.c.teq(F.canont(g.cast('zext', a[1], 64, 32)), F.canont(sz),
                                                                              F.canonb(c))
                cand.append((min(y[0] == 'ok' for y in x), x))
            x = max(cand, key=lambda y: y[0])[1]
            for w, (s, d) in zip(('start', 'size'), x):
                r.put(s, 'hashes-compared-bytes', 'hash %d %s' % (n, w), d, i.where())
        size = [F.ld(F.ld(F.arg(1)), 0), F.ld(F.ld(F.arg(1)), 8)]
        diff = padd(size[1], size[0], -1)
        bad = und = ''

        def inner(x):
            o = padd(x, F.ld(F.ld(F.arg(1))), -1)
            return o[0] == 'p' and all(k == () or all(y[0] in ('iv', 'kx') for y in k) for k, _ in o[2])

        def stop(a):
            if a[0] == 'call' and HASHF(a[1]):
                return True
            if a[0] in ('div', 'rem') and len(a) > 1 and a[1] == diff:
                return True
            if a[0] in ('ld', 'ldv') and a[1] == 'i32':
                o = padd(a[2], padd(F.ld(F.ld(F.arg(1), 8)), K(64, 24)), -1)
                return all(c % 32 == 0 and all(x[0] in ('iv', 'kx') for x in k) for k, c in o[2])
            return a[0] in ('iv', 'kx', 'trip', 'anytrip')
        for a in deps(g, ret, stop):
            if a == index:
                bad = 'the hash depends on the index of the vertex, which equal vertices do not share'
            elif a[0] in ('ld', 'ldv') and a[1] == 'i64' and inner(a[2]):
                bad = 'the hash depends on where the bytes of the vertices are, which changes when vertices are added'
            elif a[0] in ('ld', 'ldv') and a[1] not in ('i32', 'i64'):
                und = 'bytes are hashed in a way that is not understood'
            elif a[0] == 'arg' or a[0] in ('alloca', 'call', 'callv') and not HASHF(str(a[1])):
                und = 'value %s' % (a[0],)
        if bad:
            r.bad('hashes-only-bytes', 'hash of vertices', bad, F.where())
        elif und:
            r.und('hashes-only-bytes', 'hash of vertices', und, F.where())
        else:
            r.ok('hashes-only-bytes', 'hash of vertices')
    guard(r, 'hashes-only-bytes', 'hash of vertices', hashed)

    for n in range(HASHMAX + 1):
        def reads():
            F = Fn(m, 'mem|%d' % n)
            g = F.g
            r.count('sizes of hashed memory')
            if g.loops:
                raise AnalysisError('loop over the memory')
            for i in g.fn.insts.values():
                if i.bb not in g.live:
                    continue
                if i.op == 'load':
                    ad, w = g.term(i.ops[0], None), width(i['ty']) // 8
                elif i.op in ('call', 'invoke') and ('memcpy' in i.get('dem', '') or 'memcmp' in i.get('dem', '')):
                    ad, w = g.args(i)[1], pconst(g.args(i)[2])
                else:
                    continue
                if ad[0] != 'p':
                    r.und('hashes-within', '%d bytes' % n, 'address', i.where())
                    continue
                root, o = root_off(ad)
                if root != F.arg(0):
                    if atom_of(root) is not None and atom_of(root)[0] in ('alloca', 'glob'):
                        continue
                    r.und('hashes-within', '%d bytes' % n, 'address', i.where())
                elif o < 0 or w is None or o + w > n:
                    if g.full(i.bb):
                        r.bad('hashes-within', '%d bytes' % n, 'reads bytes %d to %d' % (o, o + (w or 1) - 1), i.where())
                else:
                    r.ok('hashes-within', '%d bytes at %d' % (n, o))
            dirty = [a for a in deps(g, F.ret(), lambda a: a[0] in ('ld', 'ldv')) if a[0] not in ('ld', 'ldv') and
                     (a[0] == 'arg' or a[0] in ('alloca', 'callv'))]
            r.put('violation' if any(a[0] == 'arg' for a in dirty) else 'undecided' if dirty else 'ok', 'hashes-only-bytes',
                  '%d bytes' % n, 'the hash depends on the address of the bytes' if dirty else '', F.where())
        guard(r, 'hashes-within', '%d bytes' % n, reads)


def local_sets(C):
    return {root_off(C.args(e)[0])[0] for k, es in C.kind.items() if k.startswith('set.') for e in es}


def skipped(r, C, ss):
    """An index is not written without a lookup only because the vertex equals another in some of the streams."""
    g, B = C.g, C.B
    for e in C.kind.get('setIndex', []):
        if restart_write(C, e):
            continue
        l = C.ctx(e)
        c = B.AND(g.cond(e.bb), B.NOT(B.OR(0, *[g.cond(s.bb) for s in ss if C.ctx(s) is l])))
        if not any(C.ctx(s) is l for s in ss) or c == 0:
            continue
        c = B.AND(C.canonb(c), C.canonb(C.full(e)))
        inner = {l.id} | {x.id for x in l.ancestors()}
        cmps, bad = 0, False
        for n in B.support(C.canonb(B.AND(g.cond(e.bb), B.NOT(B.OR(0, *[g.cond(s.bb) for s in ss if C.ctx(s) is l]))))):
            a = B.atoms[n]
            if a[0] in ('EX', 'ex') or any(isinstance(x, tuple) and (x == ('sym', 'NS') or x[:1] == ('iv',) and x[1] not in inner)
                                           for x in subterms(a)):
                bad = True
                break
            for x in subterms(a):
                if isinstance(x, tuple) and x and x[0] == 'call' and x[1] in ('memcmp', 'bcmp'):
                    if not any(one_stream(C, t) for t in x[2][:2]):
                        bad = True
                    cmps += 1
        if cmps and not bad and c != 0:
            C.put(r, 'always-looked-up', line(e), 'violation',
                  'no lookup if the vertex equals another one in only some of the streams', e)


def one_stream(C, t):
    """t points into the vertices of a particular stream."""
    v0 = padd(C.this, K(64, VERTS))
    for k, c in (t[2] if t[0] == 'p' else ()):
        if len(k) == 1 and c == 1 and k[0][0] in ('ld', 'ldv') and k[0][2][0] == 'p':
            for k2, c2 in k[0][2][2]:
                if len(k2) == 1 and c2 == 1 and k2[0][0] in ('ld', 'ldv') and k2[0][2] == v0 and \
                        pconst(padd(k[0][2], A(64, k2[0]), -1)) is not None:
                    return True
    return False


def v08(r, C):
    g, B, fn = C.g, C.B, C.g.fn
    if len(local_sets(C)) != 1:
        raise AnalysisError('%d sets of vertices' % len(local_sets(C)))
    ss = C.kind.get('set.insert', [])
    if not ss:
        raise AnalysisError('vertices are looked up in a way that is not understood')
    if C.p not in STRIPS:
        skipped(r, C, ss)
    for s in ss:
        r.count('lookups')
        nm = 'line ' + s.loc().split(':')[-1]
        ap = Append(C, s)
        if ap.loop is None or before(C, ap.loop) is None:
            r.und('lookup', '%s %s' % (C.name, nm), 'vertex is added in a way that is not understood', s.where())
            continue
        cond = C.full(s)
        a = C.args(s)
        new = vertex_count(C, before(C, ap.loop))
        for what, off, ty, v in (('vertices', 0, 'i64', padd(C.this, K(64, VERTS))), ('formats', 8, 'i64', padd(C.this, K(64, FMT))),
                                 ('index', 16, 'i32', new)):
            st, d = C.teq(C.ld(padd(a[1], K(64, off)), ty, s), v, cond)
            C.put(r, 'looks-up-added', '%s %s' % (nm, what), st, d, s)
        # whenever a vertex is added it is looked up
        e = ap.ins[0]
        st, d = C.beq(B.AND(g.cond(e.bb), g.region_reach(ap.loop.parent).get(g.nkey(ap.loop), 0)), g.cond(s.bb))
        C.put(r, 'always-looked-up', nm, st, d, s)
        # duplicates are removed from each stream again
        rem = [x for x in C.kind.get('vec.resize', []) + C.kind.get('verts.resize', []) if C.ctx(x) is not None and
               C.ctx(x).parent is C.ctx(s) and fn.dominates(s.bb, C.ctx(x).header) and
               not any(o is not s and fn.dominates(s.bb, o.bb) and fn.dominates(o.bb, C.ctx(x).header) for o in ss)]
        copy = any(('*', frozenset({(('arg', 0), VERTS)})) in g.vorigin(x['args'][2]) for x in ap.ins)
        if copy:
            continue     # a copied vertex is the first of its buffer or differs from the one before it, see V12
        if len(rem) != 1:
            r.und('duplicate-removed', '%s %s' % (C.name, nm), '%d places remove vertices' % len(rem), s.where())
            continue
        x = rem[0]
        k = C.iv(C.ctx(x))
        xa = C.args(x)
        dst = add(C, C.field(VERTS, 'i64', x), pmul(k, K(64, 24)))
        size = add(C, C.ld(add(C, dst, K(64, 8)), 'i64', x), C.ld(dst, 'i64', x), -1)
        sk = g.cast('zext', C.stride(k), 64, 32)
        for what, t, specs in (('stream', xa[0], [dst]), ('streams', C.ctx(x).trip, [C.NS]),
                               ('size', xa[1], [add(C, size, sk, -1),
                                                lift(C, lambda n: pmul(g.cast('zext', n, 64, 32), sk), new)])):
            st, d = best(C.teq(t, spec, C.full(x)) for spec in specs)
            C.put(r, 'duplicate-removed', '%s %s' % (nm, what), st, d, x)
        flag = not_inserted(C, s)
        st, d = C.beq(B.AND(g.cond(x.bb), g.region_reach(C.ctx(x).parent).get(g.nkey(C.ctx(x)), 0)), B.AND(g.cond(s.bb), flag))
        C.put(r, 'duplicate-removed', nm + ' exactly then', st, d, x)


def evs(C, s):
    """Parts of the result of the lookup: (index of the vertex that is in the set, condition that it was there before)."""
    g = C.g
    for i in g.fn.insts.values():
        if i.op == 'extractvalue' and i.ops and i.ops[0][0] == 'v' and i.ops[0][1] == s.id:
            yield i


def not_inserted(C, s):
    g = C.g
    for i in evs(C, s):
        t = g.term(['v', i.id], C.ctx(s))
        if t[0] == 'b' or t[0] == 'p' and t[1] == 8:
            x = t[1] if t[0] == 'b' else C.B.NOT(g.cmp('eq', t, K(8, 0)))
            return C.B.NOT(x)
    raise AnalysisError('result of the lookup is not used')


# ------------------------------------------------------------------ V09
def c_v09(ws, r):
    for C in convs(ws, r):
        guard(r, 'index-buffers', C.name, lambda: v09(r, C))


def line(e):
    return 'line ' + e.loc().split(':')[-1]


def grown(C, e):
    """The resize of the index data that makes room for the index written at e."""
    fn = C.g.fn
    rs = [x for x in C.kind.get('inds.resize', []) if C.ctx(x) is C.ctx(e) and (fn.dominates(x.bb, e.bb)) and
          (x.bb != e.bb or x.idx < e.idx)]
    rs = [x for x in rs if not any(o is not x and fn.dominates(x.bb, o.bb) and (x.bb != o.bb or x.idx < o.idx) for o in rs)]
    return rs[0] if len(rs) == 1 else None


def added(C, e):
    """The lookup whose vertex is written as index at e."""
    fn = C.g.fn
    ss = [s for s in C.kind.get('set.insert', []) if C.ctx(s) is C.ctx(e) and fn.dominates(s.bb, e.bb) and
          (s.bb != e.bb or s.idx < e.idx)]
    ss = [s for s in ss if not any(o is not s and fn.dominates(s.bb, o.bb) and (s.bb != o.bb or s.idx < o.idx) for o in ss)]
    return ss[0] if len(ss) == 1 else None


def found_index(C, s):
    """Index of the vertex in the set that the lookup found."""
    g = C.g
    for i in evs(C, s):
        t = g.term(['v', i.id], C.ctx(s))
        if t[0] == 'p' and t[1] == 64:
            return C.ld(padd(t, K(64, 24)), 'i32', i)
    return None


def restart_write(C, e):
    a = C.args(e)
    return len(a) == 4 and pconst(a[3]) == RESTART[C.t]


def local_cond(C, e):
    """Condition of e within one trip of its loop."""
    return C.g.cond(e.bb)


def buffer_starts(C):
    """(start of the first buffer, starts of others)."""
    es = C.kind.get('idata.push_back', [])
    return [e for e in es if C.ctx(e) is None], [e for e in es if C.ctx(e) is not None]


def v09(r, C):
    g, B, fn = C.g, C.B, C.g.fn
    if C.t == 0:
        es = [e for k, x in C.kind.items() if k.startswith(('idata.', 'inds.')) and 'clear' not in k for e in x]
        for e in es:
            c = C.closed(e.bb)
            # no position is a restart once all positions were checked
            if C.beq(B.AND(c, B.NOT(spec_ok(C)[3])), 0)[0] == 'ok':
                q0, q1 = C.q(0), C.q(1)
                c = B.AND(C.canonb(C.full(e)), *[B.NOT(C.EX(C.NS, C.EX(C.NE(q0), C.canonb(C.isrestart(q0, q1, i)))))
                                                 for i, ls in C.positions(e)])
            st, d = C.beq(c, 0)
            C.put(r, 'no-buffers-without-indices', line(e), st, d, e)
        if not es:
            r.ok('no-buffers-without-indices', C.name)
        return
    ws = C.kind.get('setIndex', [])
    if not ws:
        raise AnalysisError('indices are written in a way that is not understood')
    other = [k for k in C.kind if k.startswith(('inds.', 'idata.')) and k not in ('inds.resize', 'idata.push_back', 'inds.reserve', 'idata.reserve')]
    if other:
        raise AnalysisError('index data is changed by %s' % ', '.join(sorted(other)))
    for e in ws:
        r.count('index writes')
        a, cond = C.args(e), C.full(e)
        gr = grown(C, e)
        if gr is None:
            r.und('index-position', '%s %s' % (C.name, line(e)), 'room is made in a way that is not understood', e.where())
            continue
        at = lift(C, lambda x, y: padd(x, pmul(y if y[1] == 64 else g.cast('zext', y, 64, y[1]), K(64, ISZ[C.t]))), a[1], a[2])
        n = lift(C, lambda x: pmul(x, K(64, ISZ[C.t])), index_count(C, gr))
        for what, t, spec in (('type', a[0], K(8, C.t)), ('address', at, add(C, C.field(INDS, 'i64', e), n)),
                              ('room', C.args(gr)[1], add(C, index_bytes(C, gr), K(64, ISZ[C.t])))):
            st, d = C.teq(t, spec, cond)
            C.put(r, 'index-position', '%s %s' % (line(e), what), st, d, e)
        st, d = C.beq(g.cond(gr.bb), g.cond(e.bb))
        C.put(r, 'index-position', line(e) + ' only room for it', st, d, e)
        if restart_write(C, e):
            continue
        s = added(C, e)
        ap = Append(C, s) if s is not None else None
        if ap is None or ap.loop is None or before(C, ap.loop) is None:
            r.und('index-value', '%s %s' % (C.name, line(e)), 'vertex is not understood', e.where())
            continue
        new = vertex_count(C, before(C, ap.loop))
        fi = found_index(C, s)
        ni = not_inserted(C, s)
        vtx = g.mkite([(ni, fi), (B.NOT(ni), new)]) if fi is not None else new
        base = last_data(C, e, 16, 'i32')[1]
        res = []
        for bt in [base] + bases(C, e):
            res.append(C.teq(a[3], add(C, vtx, bt, -1), cond))
        st, d = best(res)
        C.put(r, 'index-value', line(e), st, d, e)
        st, d = C.beq(g.cond(s.bb), g.cond(e.bb))
        C.put(r, 'index-value', line(e) + ' for each vertex', st, d, e)
    for e in C.kind.get('inds.resize', []):
        if not any(grown(C, x) is e for x in ws):
            r.und('index-position', '%s %s' % (C.name, line(e)), 'room for something that is not understood', e.where())
    counts(r, C, ws)
    first, more = buffer_starts(C)
    for e in first + more:
        r.count('starts of buffers')
        a = C.args(e)
        if len(a) != 2 or local(a[1]) is None:
            r.und('buffer-start', '%s %s' % (C.name, line(e)), 'buffer is not understood', e.where())
            continue
        cond = C.full(e)
        for what, off, ty, specs in (('data', 0, 'i64', [index_bytes(C, e)] + ([K(64, 0)] if e in first else [])),
                                     ('type', 8, 'i8', [K(8, C.t)]), ('count', 12, 'i32', [K(32, 0)]),
                                     ('base', 16, 'i32', [K(32, 0)] if e in first else [vertex_count(C, e)])):
            t = C.ld(padd(a[1], K(64, off)), ty, e)
            st, d = best(C.teq(t, sp, cond) for sp in specs)
            if st == 'violation' and what == 'data' and not fixes(C):
                st, d = 'undecided', 'pointers are not set at the end, so this may be one already'
            if st == 'undecided' and what == 'data' and e in more and C.p in STRIPS and only_counts(C, t):
                # indices that are left out of the buffer before (V12) take room, too
                st, d = 'violation', 'follows from the numbers of indices, which leave out those that are not part of the buffer'
            C.put(r, 'buffer-start', '%s %s' % (line(e), what), st, d, e)
    if len(first) == 1:
        st, d = C.beq(C.closed(first[0].bb), B.AND(*spec_ok(C)))
        C.put(r, 'buffer-start', 'first buffer always', st, d, first[0])
    else:
        r.und('buffer-start', C.name, '%d first buffers' % len(first))
    later_changes(r, C)
    pointers(r, C)


def fixes(C):
    """Loops that set the pointers of all buffers."""
    g, B = C.g, C.B
    fix = []
    for e in C.kind.get('store', []):
        l = C.ctx(e)
        if l is None or l.parent is not None or e.get('sty', e.get('ty')) not in ('ptr', 'i64', None):
            continue
        p = before(C, l)
        if p is None:
            continue
        ad = g.term(e.ops[1], l)
        b0 = C.field(IDATA, 'i64', p)
        if ad[0] == 'p' and C.same(ad, padd(b0, pmul(C.iv(l), K(64, 24)))):
            fix.append((e, l, p, ad, b0))
    return fix


def only_counts(C, t):
    """Value t is computed from the numbers of indices of the buffers and from nothing else."""
    g = C.g
    upd = {pid: u for l in g.loops for pid, u in l.update.items()}
    seen, work, n = set(), [t], 0
    while work:
        x = work.pop()
        for y in subterms(x):
            if not isinstance(y, tuple) or not y or not isinstance(y[0], str) or y in seen:
                continue
            seen.add(y)
            if y[0] == 'hphi':
                if y[1] not in upd:
                    return False
                work += list(upd[y[1]])
            elif y[0] in ('ld', 'ldv'):
                a = y[2]
                if a[0] != 'p':
                    return False
                d = padd(a, C.this, -1)
                if pconst(d) in (IDATA, IDATA + 8):
                    continue
                base = [k[0] for k, c in a[2] if len(k) == 1 and c == 1 and k[0][0] in ('ld', 'ldv') and
                        pconst(padd(k[0][2], C.this, -1)) == IDATA]
                if y[1] != 'i32' or len(base) != 1:
                    return False
                d = padd(a, A(64, base[0]), -1)
                if not all((c - (12 if k == () else 0)) % 24 == 0 for k, c in d[2]) or not any(k == () for k, c in d[2]):
                    return False
                n += 1
            elif y[0] not in ('iv', 'kx', 'arg', 'p', 'zext', 'sext', 'trunc', 'div', 'loop'):
                return False
    return n > 0


def later_changes(r, C):
    """Once the indices are written, the number of indices, first vertex and type of the buffers stay as they are."""
    g, B = C.g, C.B
    for e, l, p, ad, ty in later_stores(C):
        v = g.term(e.ops[0], l)
        st, dd = C.teq(v, C.ld(ad, ty, e), C.full(e))
        # indices that are left out of the buffer before (V12) still take room, so the count does not follow from where
        # the buffers start; anything else may
        lds = [x[2] for x in subterms(v) if isinstance(x, tuple) and x and x[0] in ('ld', 'ldv')]
        b0 = C.field(IDATA, 'i64', p)
        starts = all(start_or_size(C, a, b0) for a in lds)
        if st == 'violation' and not (ty == 'i32' and C.p in (2, 4, 5) and lds and starts and
                                      all(any(grown(C, w) is x for w in C.kind['setIndex'])
                                          for x in C.kind.get('inds.resize', []))):
            st, dd = 'undecided', 'a later change that may be none: ' + dd
        C.put(r, 'later-changes', line(e), st, dd, e)


def start_or_size(C, a, b0):
    """Address a is that of a member, or where a buffer starts."""
    if a[0] != 'p':
        return False
    d = padd(a, C.this, -1)
    if pconst(d) is not None:
        return pconst(d) in (INDS, INDS + 8, IDATA, IDATA + 8)
    d = padd(a, b0, -1)
    return d[0] == 'p' and all(c % 24 == 0 for k, c in d[2])


def later_stores(C):
    """Stores to the count, first vertex or type of buffers in loops after the one that writes the indices."""
    out = []
    g = C.g
    L = primitives(C)
    if L is None:
        return out
    for e in C.kind.get('store', []):
        l = C.ctx(e)
        if l is None or l.parent is not None or l is L or not C.g.fn.dominates(L.header, l.header):
            continue
        p = before(C, l)
        ad = g.term(e.ops[1], l)
        if p is None or ad[0] != 'p':
            continue
        d = padd(padd(ad, C.field(IDATA, 'i64', p), -1), pmul(C.iv(l), K(64, 24)), -1)
        ty = {8: 'i8', 12: 'i32', 16: 'i32'}.get(pconst(d) if d[0] == 'p' else None)
        if ty is None:
            continue
        out.append((e, l, p, ad, ty))
    return out


def pointers(r, C):
    """The pointers are set at the end."""
    g, B = C.g, C.B
    fix = fixes(C)
    if not fix:
        x = dangling(C)
        if x:
            C.put(r, 'pointer', 'after the indices are complete', 'violation', x[1], x[0])
            return
    if len(fix) != 1:
        raise AnalysisError('%d loops set the pointers of the buffers' % len(fix))
    e, l, p, ad, b0 = fix[0]
    v = g.term(e.ops[0], l)
    st, d = C.teq(v, padd(C.field(INDS, 'i64', e), C.ld(ad, 'i64', e)), C.full(e))
    C.put(r, 'pointer', 'value', st, d, e)
    n = g.divterm('div', padd(C.field(IDATA + 8, 'i64', p), b0, -1), K(64, 24))
    if l.trip is None:
        r.und('pointer', C.name + ' every buffer', 'loop is not understood', e.where())
    else:
        st, d = C.teq(l.trip, n, C.full(e))
        C.put(r, 'pointer', 'every buffer', st, d, e)
    st, d = C.beq(g.cond(e.bb), 1)
    C.put(r, 'pointer', 'of each', st, d, e)
    late = [x for k, xs in C.kind.items() if k.startswith(('inds.', 'idata.')) for x in xs if after(g, e, x)]
    C.put(r, 'pointer', 'after the indices are complete', 'violation' if late else 'ok',
          'index data changes after the pointers were set: ' + ', '.join(x.loc() for x in late) if late else '', e)


def dangling(C):
    """(store, why) of a pointer into the indices that is kept while they grow, and that nothing replaces afterwards."""
    g = C.g

    def into(v):
        """A pointer into the indices rather than a size."""
        if v[0] != 'p':
            return False
        n = 0
        for m, c in v[2]:
            if len(m) == 1 and isinstance(m[0], tuple) and m[0][0] in ('ld', 'ldv') and m[0][1] == 'i64' and any(
                    C.same(m[0][2], padd(A(64, ('arg', 0)), K(64, INDS + o))) for o in (0, 8)):
                n += c
        return n % (1 << 64) == 1
    grow = [x for x in C.kind.get('inds.resize', []) + C.kind.get('inds.insert', []) + C.kind.get('inds.push_back', [])]
    kept = []
    for e in C.kind.get('store', []):
        if e.get('sty', e.get('ty')) not in ('ptr', 'i64', None):
            continue
        v, ad = g.term(e.ops[0], C.ctx(e)), g.term(e.ops[1], C.ctx(e))
        b = root_off(ad)[0] if ad[0] == 'p' else None
        if b is not None and patom(b) and patom(b)[0] == 'alloca':
            continue
        if not any(after(g, e, x) for x in grow):
            return None
        if C.same(ad, last_data(C, e, 0, 'i64')[0]) and into(v):
            kept.append(e)
    for e in C.kind.get('idata.push_back', []):
        a = C.args(e)
        if len(a) == 2 and local(a[1]) is not None and any(after(g, e, x) for x in grow) and into(C.ld(a[1], 'i64', e)):
            kept.append(e)
    for x in C.kind.get('inds.reserve', []):
        a = C.args(x)
        a = a[1] if len(a) > 1 else None
        if a is None or not (pconst(a) is not None or a[0] == 'ite' and any(pconst(y) is not None for c, y in a[1])):
            return None
    if any(k.startswith('idata.') and k not in ('idata.push_back', 'idata.reserve') for k in C.kind):
        return None
    return (kept[0], 'points into the indices while they can still grow') if kept and grow else None


def bases(C, e):
    """Other forms of the base vertex of the current buffer: the one that the buffer was started with."""
    out = []
    for b in buffer_starts(C)[1]:
        if C.ctx(b) is not None and C.g.fn.dominates(b.bb, e.bb) and C.args(b)[1:] and local(C.args(b)[1]) is not None:
            out.append(C.ld(padd(C.args(b)[1], K(64, 16)), 'i32', b))
    return out


def increments(C):
    """Stores to the number of indices of the last buffer: (store, added)."""
    g = C.g
    out = []
    for e in C.kind.get('store', []):
        l = C.ctx(e)
        if l is None:
            continue
        ad, v = g.term(e.ops[1], l), g.term(e.ops[0], l)
        b = g.abase(e.ops[1])[0]
        if b is not None and b[0] == 'alloca':
            continue
        want, cur = last_data(C, e, 12, 'i32')
        st = C.teq(ad, want, C.full(e))[0] if ad[0] in ('p', 'ite') else 'undecided'
        if st == 'ok':
            d = C.canont(add(C, v, cur, -1))
            out.append((e, pconst(d) if d[0] == 'p' else None))
        elif st == 'undecided' and (b is None or b == ('arg', 0)):
            out.append((e, None))
    return out


def counts(r, C, ws):
    """In each place the number of indices of the last buffer grows by the number of indices written."""
    g, B = C.g, C.B
    inc = increments(C)
    X = None
    places = {C.ctx(e) for e in ws} | {C.ctx(e) for e, w in inc}
    for l in sorted(places, key=lambda x: x.id if x else -1):
        at = [e for e in ws if C.ctx(e) is l]
        ups = [(e, w) for e, w in inc if C.ctx(e) is l]
        nm = 'loop at ' + (line(g.fn.term(l.header)) if l else 'top')
        if any(w is None or w < 0 or w > 8 for e, w in ups):
            r.und('counted', '%s %s' % (C.name, nm), 'change of the count is not understood', ups[0][0].where())
            continue
        # every combination of the conditions
        def differ(f):
            ev = [(f(g.cond(e.bb)), 1) for e in at] + [(f(g.cond(e.bb)), -w) for e, w in ups]
            bad = 0

            def go(i, c, n):
                nonlocal bad
                if c == 0:
                    return
                if i == len(ev):
                    if n:
                        bad = B.OR(bad, c)
                    return
                go(i + 1, B.AND(c, ev[i][0]), n + ev[i][1])
                go(i + 1, B.AND(c, B.NOT(ev[i][0])), n)
            go(0, 1, 0)
            return bad
        bad = differ(C.canonb)
        st, d = C.beq(bad, 0)
        if st == 'undecided' and X is None:
            X = since(C)
        if st == 'undecided' and X:
            # for each number of indices since the last restart
            each = [C.beq(differ(x.b), 0, x.b(split_cond(C))) for x in X]
            if all(y[0] == 'ok' for y in each):
                st, d = C.beq(B.AND(bad, B.NOT(split_cond(C))), 0)
            elif any(y[0] == 'violation' for y in each):
                st, d = next((y[0], '%s indices after a restart: ' % ('more' if x.d is None else x.d) + y[1])
                             for x, y in zip(X, each) if y[0] == 'violation')
        if st == 'violation' and later_stores(C):
            st, d = 'undecided', 'the number changes later'
        C.put(r, 'counted', nm, st, d, (at or [ups[0][0]])[0])


def split_cond(C):
    more = buffer_starts(C)[1]
    return C.g.cond(more[0].bb) if len(more) == 1 else 0


def since(C):
    """States by the number of indices since the last restart, or []."""
    L = primitives(C)
    more = buffer_starts(C)[1]
    if L is None or len(more) != 1 or C.ctx(more[0]) is not L or C.p not in STRIPS:
        return []
    try:
        f = sizes(C, more[0], [])
        phi, init, st, d = restart_counter(C, L, more[0], split_cond(C), f)
    except AnalysisError:
        return []
    return [Since(C, phi, init, f, d) for d in list(range(DGEN)) + [None]]


# ------------------------------------------------------------------ V10
def c_v10(ws, r):
    for C in convs(ws, r):
        guard(r, 'split', C.name, lambda: v10(r, C))


def v10(r, C):
    g, B, fn = C.g, C.B, C.g.fn
    first, more = buffer_starts(C)
    if C.t == 0:
        for e in more:
            st, d = C.beq(C.closed(e.bb), 0)
            C.put(r, 'split-exactly-when-full', line(e), st, d, e)
        if not more:
            r.ok('split-exactly-when-full', C.name, 'no index buffers')
        return
    L = primitives(C)
    if L is None:
        raise AnalysisError('loop over the primitives is not understood')
    if any(C.ctx(e) is not L for e in more) or not more:
        raise AnalysisError('buffers are started in a way that is not understood')
    split = 0
    for e in more:
        r.count('starts of buffers')
        split = B.OR(split, g.cond(e.bb))
    e = more[0]
    n, last = vertex_count(C, e), last_data(C, e, 16, 'i32')[1]
    mx = C.field(MAXI, 'i32')
    need = g.lift(lambda x, y: padd(padd(padd(x, primstride(C)), K(32, -1)), y, -1), n, last)
    spec = g.cmp('ult', mx, need)
    und = 1
    if n[0] == 'p' and last[0] == 'p':
        big = K(32, 1 << 29)
        # the constructor makes sure that one primitive fits
        und = B.AND(g.cmp('ult', n, big), g.cmp('ult', last, padd(n, K(32, 1))), g.cmp('ult', primstride(C), big),
                    g.cmp('ult', K(32, 0), primstride(C)), B.NOT(g.cmp('ult', mx, padd(primstride(C), K(32, -1)))))
    st, d = C.beq(split, spec, und)
    C.put(r, 'split-exactly-when-full', line(e), st, d, e)
    clears = C.kind.get('set.clear', [])
    cl = 0
    for x in clears:
        if C.ctx(x) is not L:
            raise AnalysisError('vertices are forgotten in a way that is not understood')
        cl = B.OR(cl, g.cond(x.bb))
    st, d = C.beq(split, cl)
    C.put(r, 'vertices-not-shared', 'forgotten with each buffer', st, d, clears[0] if clears else e)
    for s in C.kind.get('set.insert', []):
        # a lookup in the same trip after the buffer was started comes after the vertices were forgotten
        for x in more:
            if not reach(g, x, s, L):
                continue
            ok = any(passes(g, x, s, c, L) for c in clears)
            C.put(r, 'vertices-not-shared', 'lookup ' + line(s), 'ok' if ok else 'violation',
                  '' if ok else 'vertices of earlier buffers can be found here', s)


def primitives(C):
    """The loop over the primitives."""
    for e in C.kind.get('fromData', []):
        for i, ls in C.positions(e):
            l = ls[0]
            # positions that are written, not those of the pass that collects the bounds
            if any(l in C.nest(x) for x in C.kind.get('toData', [])):
                return l
    return None


def reach(g, a, b, l):
    """b can follow a within one trip of l."""
    if a.bb == b.bb:
        return a.idx < b.idx
    seen, st = {a.bb}, [a.bb]
    while st:
        for x in g.fn.succ[st.pop()]:
            if x == b.bb:
                return True
            if x not in seen and x in l and x != l.header:
                seen.add(x)
                st.append(x)
    return False


def passes(g, a, b, c, l):
    """Every way from a to b within one trip of l passes c."""
    if not reach(g, a, c, l) and not (c.bb == a.bb):
        return g.fn.dominates(c.bb, a.bb)
    if c.bb == a.bb:
        return True
    if c.bb == b.bb:
        return c.idx < b.idx
    seen, st = {a.bb}, [a.bb]
    while st:
        for x in g.fn.succ[st.pop()]:
            if x == b.bb:
                return False
            if x not in seen and x in l and x not in (l.header, c.bb):
                seen.add(x)
                st.append(x)
    return True


# ------------------------------------------------------------------ V11
def c_v11(ws, r):
    for C in convs(ws, r):
        guard(r, 'restart', C.name, lambda: v11(r, C))


def v11(r, C):
    g, B = C.g, C.B
    q0, q1 = C.q(0), C.q(1)

    def restart(i):
        return C.EX(C.NS, C.EX(C.NE(q0), C.isrestart(q0, q1, i)))
    if C.t == 0:
        rv = retval(g)
        if C.p not in STRIPS:
            r.ok('restart-needs-indices', C.name, 'no restarts')
            return
        q2 = C.q(2, 32)
        some = C.EX(C.NS, C.EX(C.NE(q0), C.EX(C.IC, C.isrestart(q0, q1, q2))))
        # accepting restarts shows in the condition of the result
        ok = B.AND(*spec_ok(C))
        st, d = C.beq(rv[1], ok)
        C.put(r, 'restart-needs-indices', '', st, d)
        return
    ws = C.kind.get('setIndex', [])
    L = primitives(C)
    if L is None:
        raise AnalysisError('loop over the primitives is not understood')
    # writes of the position, as opposed to copies when a buffer starts
    splits = buffer_starts(C)[1]
    pos = [e for e in ws if C.positions(e) or C.ctx(e) is L and C.p in (0,) + STRIPS and
           not any(g.fn.dominates(x.bb, e.bb) for x in splits)]
    pos = [e for e in pos if not any(g.fn.dominates(x.bb, e.bb) for x in splits)]
    if not pos or len({C.ctx(e) for e in pos}) != 1:
        raise AnalysisError('indices are written in a way that is not understood')
    cr, cv, twice = 0, 0, 0
    allc = 0
    for e in pos:
        r.count('index writes')
        c = g.cond(e.bb)
        twice = B.OR(twice, B.AND(allc, c))
        allc = B.OR(allc, c)
        if restart_write(C, e):
            cr = B.OR(cr, c)
        else:
            cv = B.OR(cv, c)
    e = pos[0]
    cand = [i for i, ls in C.positions(e)]
    if not cand:
        raise AnalysisError('positions are not understood')
    st, d = best(C.beq(cr, restart(i)) for i in cand)
    if st == 'undecided':
        for i in cand:
            h = histories(C, L, splits, cr, restart(i), restart(i))
            if h:
                st, d = 'violation', h
                break
    C.put(r, 'restart-written', 'exactly for restarts', st, d, e)
    st, d = best(C.beq(cv, B.NOT(restart(i))) for i in cand)
    if st == 'undecided':
        for i in cand:
            h = histories(C, L, splits, cv, B.NOT(restart(i)), restart(i))
            if h:
                st, d = 'violation', h
                break
    C.put(r, 'vertex-written', 'exactly for others', st, d, e)
    st, d = C.beq(twice, 0)
    C.put(r, 'one-index', 'per position', st, d, e)
    for x in C.kind.get('insert', []):
        l = C.ctx(x)
        if l is None or any(g.fn.dominates(y.bb, x.bb) for y in splits):
            continue
        cd = B.AND(g.cond(x.bb), g.region_reach(l.parent).get(g.nkey(l), 0)) if l.parent is C.ctx(e) else None
        if cd is None:
            continue
        st, d = best(C.beq(B.AND(cd, restart(i)), 0) for i in cand)
        C.put(r, 'restart-adds-no-vertex', line(x), st, d, x)


def histories(C, L, splits, cond, spec, restart):
    """The condition of writing an index in the states after the first few indices, as far as they follow from the
    number of indices written and variables with known values."""
    g, B = C.g, C.B
    isz = ISZ[C.t]
    split = 0
    for s in splits:
        split = B.OR(split, g.cond(s.bb))
    base = patom(C.field(INDS + 8, 'i64', splits[0])) if splits else None
    if base is None or len(base) < 4:
        return None
    begin = A(64, base[:2] + (padd(C.this, K(64, INDS)),) + base[3:])
    ups, st0 = {}, {}
    for p in [i for i in g.fn.bb[L.header] if i.op == 'phi']:
        at, w = g.hphi(p), width(p['ty'])
        if not w:
            continue
        i0 = g.term(next(v for v, b in p['in'] if b not in L.blocks), L.parent)
        vals = [(g.edge(b, L.header, L), g.latchval(v, b, L)) for v, b in p['in'] if b in L.blocks and b in g.live]
        ups[at] = C.canont(g.mkite([(C.canonb(c), v) for c, v in vals]) if any(v != vals[0][1] for _, v in vals) else vals[0][1]), w
        if i0[0] == 'p' and pconst(i0) is not None:
            st0[at] = pconst(i0)
    todo = [((), st0)]
    while todo:
        hist, st = todo.pop(0)
        n = len(hist)

        def f(x):
            if x == base:
                return padd(begin, K(64, isz*n))
            if x in st and x in ups:
                return K(ups[x][1], st[x])
            return None
        rs, no, c, sp = (C.c.bsubst(C.canonb(x), f) for x in (restart, B.NOT(split), cond, spec))
        s, d = C.beq(c, sp, no)
        if s == 'violation':
            return 'after ' + (' and '.join(hist) or 'nothing') + ' was written'
        if s != 'ok' or n == 2:
            continue
        for k, u in (('a restart', rs), ('a vertex', B.NOT(rs))):
            nx = {}
            for at, (t, w) in ups.items():
                v = C.c.restrict(C.c.subst(t, f), B.AND(no, u))
                v = pconst(v) if v[0] == 'p' else None
                if v is not None:
                    nx[at] = v
            todo.append((hist + (k,), nx))
    return None


# ------------------------------------------------------------------ V12
DGEN = 5        # numbers of indices since the restart that are handled one by one


def c_v12(ws, r):
    for C in convs(ws, r):
        if C.t:
            guard(r, 'repeated', C.name, lambda: v12(r, C))
        else:
            r.ok('repeated', C.name, 'no index buffers')


def sizes(C, split, loops):
    """Substitution of the sizes of the index data and of the list of buffers, relative to the number of indices before the
    buffer is started."""
    this, isz = C.this, ISZ[C.t]
    base = patom(C.field(INDS + 8, 'i64', split))
    by_header = {l.header: l for l in loops}
    memo = {}

    def f(x):
        if x[0] not in ('ldv', 'ld') or x[1] not in ('i64', 'ptr') or x[2][0] != 'p':
            return None
        o = padd(x[2], this, -1)
        c = pconst(o)
        if c not in (INDS + 8, IDATA + 8):
            return None
        begin = A(64, x[:2] + (padd(this, K(64, c - 8)),) + x[3:])
        if c == IDATA + 8:
            return padd(begin, pmul(K(64, 24), A(64, ('sym', 'ND') + x[3:])))
        if x == base:
            return padd(begin, pmul(K(64, isz), A(64, ('sym', 'N0'))))
        tag = x[3] if len(x) > 3 else None
        if isinstance(tag, int):
            i = C.g.fn.insts.get(tag)
            if i is not None and C.classify(i) == 'inds.resize':
                if tag not in memo:
                    memo[tag] = None
                    memo[tag] = C.c.subst(C.g.args(i)[1], f)
                if memo[tag] is not None and memo[tag][0] == 'p':
                    return padd(begin, memo[tag])
        elif isinstance(tag, tuple) and tag[0] == 'loop' and tag[1] in by_header:
            # after a loop that adds one index in each trip
            l = by_header[tag[1]]
            if l.trip is None or l.trip[0] != 'p':
                return None
            n = C.g.cast('zext', l.trip, 64, l.trip[1]) if l.trip[1] < 64 else l.trip
            return padd(begin, pmul(K(64, isz), padd(A(64, ('sym', 'N0')), n)))
        return None
    return f


class Since:
    """The number of indices since the last restart, D: either one number or everything from DGEN on."""

    def __init__(self, C, phi, init, f, d):
        self.C, self.d = C, d
        self.w = w = width(phi['ty'])
        D = K(w, d) if d is not None else A(w, ('sym', 'D'))
        n = A(64, ('sym', 'N0'))
        self.n = n if w == 64 else C.g.cast('trunc', n, w, 64)
        at = C.g.hphi(phi)
        val = padd(padd(self.n, init), D, -1)
        self.D = D

        def sub(x):
            if x == at:
                return val
            return f(x)
        self.sub = sub
        self.memo = {}
        self.gen = (lambda x: self.decide(x)) if d is None else None

    def decide(self, x):
        """Comparisons of D with numbers below DGEN."""
        if x[0] != 'ltc' or x[1][0] != 'p':
            return None
        w = x[1][1]
        body = dict(x[1][2])
        c0 = body.pop((), 0)
        if len(body) != 1:
            return None
        (k, s), = body.items()
        if k != (('sym', 'D'),) or s not in (1, (1 << w) - 1):
            return None
        lo, hi = (c0 + DGEN, c0 + (1 << 29)) if s == 1 else (c0 - (1 << 29), c0 - DGEN)
        m = 1 << w
        if lo // m != hi // m:
            return None
        lo, hi = lo % m, hi % m
        if hi < x[2]:
            return ('b', 1)
        if lo >= x[2]:
            return ('b', 0)
        return None

    def t(self, x):
        x = self.C.c.subst(self.C.c.subst(x, self.sub), self.sub)
        return self.C.c.subst(x, self.gen) if self.gen else x

    def b(self, n):
        n = self.C.c.bsubst(self.C.c.bsubst(n, self.sub), self.sub)
        return self.C.c.bsubst(n, self.gen) if self.gen else n


def next_inst(g, e):
    return g.fn.bb[e.bb][e.idx + 1]


def restart_counter(C, L, split, S, f):
    """The variable that follows the position of the last restart: (phi, initial value, status, detail)."""
    g, B = C.g, C.B
    rest = [e for e in C.kind.get('setIndex', []) if restart_write(C, e) and C.ctx(e) is L]
    R, at_restart = 0, []
    for e in rest:
        gr = grown(C, e)
        if gr is None:
            raise AnalysisError('restart is not understood')
        R = B.OR(R, g.cond(e.bb))
        at_restart.append((g.cond(e.bb), index_count(C, gr)))
    cands = []
    for p, i0, u in g.header_updates(L):
        if p.id in L.ivs or i0[0] != 'p' or pconst(i0) is None or u[0] not in ('p', 'ite') or width(p['ty']) not in (32, 64):
            continue
        w = width(p['ty'])
        cast = lambda t: lift(C, lambda x: g.cast('trunc', x, w, 64) if w < 64 else x, t)
        me = A(w, g.hphi(p))
        alts = [(c, add(C, add(C, cast(t), K(w, 1)), i0)) for c, t in at_restart]
        alts.append((B.AND(S, B.NOT(R)), add(C, cast(index_count(C, split)), i0)))
        alts.append((B.AND(B.NOT(S), B.NOT(R)), me))
        # equal after the sizes were expressed by the number before the start
        free = C.c.renamer(g.hphi(p), ('sym', 'R'))
        st, d = C.teq(*(C.c.subst(C.c.subst(x, f), free) for x in (u, g.mkite(alts))))
        cands.append((st != 'ok', st, d, p, i0))
    if not cands:
        raise AnalysisError('position of the last restart is not understood')
    cands.sort(key=lambda x: x[0])
    bad, st, d, phi, init = cands[0]
    if bad and len(cands) > 1:
        st = 'undecided'
    return phi, init, st, d


def v12(r, C):
    g, B, fn = C.g, C.B, C.g.fn
    L = primitives(C)
    more = buffer_starts(C)[1]
    if L is None or len(more) != 1 or C.ctx(more[0]) is not L:
        raise AnalysisError('start of a buffer is not understood')
    split = more[0]
    S = g.cond(split.bb)

    def copy(e):
        """Part of what follows the start of a buffer, not of the writing of a position."""
        return fn.dominates(split.bb, e.bb) and (e.bb != split.bb or e.idx > split.idx)
    looks = [s for s in C.kind.get('set.insert', []) if copy(s)]
    if C.p not in STRIPS:
        for s in looks:
            st, d = C.beq(g.cond(s.bb), 0)
            C.put(r, 'repeated', line(s), st, d, s)
        if not looks:
            r.ok('repeated', C.name, 'nothing is repeated for lists')
    ins = [e for e in C.kind.get('insert', []) if copy(e)]
    loops = []
    for s in looks:
        l = C.ctx(s)
        if l is not L and l not in loops:
            grow = [e for e in C.kind.get('inds.resize', []) if C.ctx(e) is l]
            if l.parent is not L or l.trip is None or l.trip[0] not in ('p', 'ite') or len(grow) != 1 or g.cond(grow[0].bb) != 1:
                raise AnalysisError('loop over the repeated vertices is not understood')
            loops.append(l)
    f = sizes(C, split, loops)
    if C.p in STRIPS:
        phi, init, st, d = restart_counter(C, L, split, S, f)
        C.put(r, 'restart-position', 'followed', st, d, split)
        r.count('restart positions')
    else:
        phi = init = None
    # what is copied
    events = []
    for s in looks:
        r.count('repeated vertices')
        ap = Append(C, s)
        if ap.loop is None:
            r.und('repeated', '%s %s' % (C.name, line(s)), 'vertex is added in a way that is not understood', s.where())
            return
        e = ap.ins[0]
        a = C.args(e)
        calls = list({x for x in index_calls(C, a[2])})
        if len(calls) != 1:
            r.und('repeated', '%s %s' % (C.name, line(s)), 'source is not understood', e.where())
            return
        call = calls[0]
        gi = [x for x in C.kind.get('getIndex', []) if C.ctx(x) is C.ctx(s) and fn.dominates(x.bb, e.bb) and
              C.args(x)[:3] == list(call[2][:3])]
        k = C.iv(ap.loop)
        sz = g.cast('zext', C.stride(k), 64, 32)
        res = []
        for at in gi + [next_inst(g, split)]:
            prev = last_data(C, at, 16, 'i32', 2)[1]
            ix = add(C, A(32, call), prev)
            vb = C.field(VERTS, 'i64', e)
            b0 = C.ld(add(C, vb, pmul(k, K(64, 24))), 'i64', e)
            sp = add(C, b0, lift(C, lambda x: pmul(g.cast('zext', x, 64, 32), sz), ix))
            x = [C.teq(C.c.subst(t, f), C.c.subst(q, f), C.full(e)) for t, q in ((a[2], sp), (a[3], add(C, sp, sz)))]
            res.append(next((y for y in x if y[0] == 'violation'), next((y for y in x if y[0] != 'ok'), x[0])))
        st, d = best(res)
        C.put(r, 'repeated-source', line(s), st, d, e)
        for what, t, spec in (('type', call[2][0], K(8, C.t)), ('data', call[2][1], None)):
            if spec is None:
                ok = any(C.same(t, C.field(INDS, 'i64', x)) for x in gi)
                st, d = ('ok', '') if ok else ('undecided', 'index data')
            else:
                st, d = C.teq(t, spec, C.full(e))
            C.put(r, 'repeated-source', '%s %s' % (line(s), what), st, d, e)
        events.append((s, call[2][2]))
    if C.p not in STRIPS:
        prev_count(r, C, split, S, copy, f, None, None, None)
        return
    for d in list(range(DGEN)) + [None]:
        X = Since(C, phi, init, f, d)
        n64 = A(64, ('sym', 'N0'))
        last, second = padd(X.n, K(X.w, -1)), padd(X.n, K(X.w, -2))
        first = padd(X.n, X.D, -1)
        many = d is None or d >= 2
        if C.p == 5:
            want = [first, last] if many else [last] if d else []
        else:
            want = ([second] if many and C.p == 4 else []) + ([last] if d != 0 else [])
        SX = X.b(S)
        nm = '%s since the restart' % (d if d is not None else 'more')
        got = []    # (condition, position, event)
        und = None
        for s, pos in events:
            l = C.ctx(s)
            if l is L:
                c, t = X.b(g.cond(s.bb)), X.t(pos)
                for c2, x in (t[1] if t[0] == 'ite' else [(1, t)]):
                    got.append((B.AND(c, c2), x, s))
                continue
            c = X.b(B.AND(g.cond(s.bb), g.region_reach(L).get(g.nkey(l), 0)))
            if c == 0:
                continue
            trip = X.t(l.trip)
            for c2, n in (trip[1] if trip[0] == 'ite' else [(1, trip)]):
                if B.AND(c, c2) == 0:
                    continue
                n = pconst(n)
                if n is None or n > 8:
                    und = 'loop over the repeated vertices is not bounded'
                    continue
                for k in range(n):
                    at = X.t(C.c.subst(pos, lambda x, k=k, l=l: K(64, k) if x == ('iv', l.id) else None))
                    for c3, x in (at[1] if at[0] == 'ite' else [(1, at)]):
                        got.append((B.AND(c, c2, c3), x, s))
        if und:
            r.und('repeated', '%s %s' % (C.name, nm), und, split.where())
            continue
        sums = {}
        for c, t, s in got:
            if c == 0:
                continue
            key = None
            for w in want:
                if pos_eq(C, t, w, X):
                    key = w
            sums.setdefault(key, []).append((c, t, s))
        lost = [t for c, t, s in sums.get(None, []) if not understood(C, t)]
        for c, t, s in sums.get(None, []):
            st, dd = C.beq(c, 0)
            if st == 'violation' and not understood(C, t):
                st = 'undecided'
            C.put(r, 'repeated', '%s: %s other vertex' % (nm, line(s)), st, 'repeats the index at %s' % show(t, B), s)
        for i, w in enumerate(want):
            evs_ = sums.get(w, [])
            tot, twice = 0, 0
            for c, t, s in evs_:
                twice = B.OR(twice, B.AND(tot, c))
                tot = B.OR(tot, c)
            st, dd = C.beq(tot, SX)
            if st == 'violation' and lost:
                st = 'undecided'
            C.put(r, 'repeated', '%s: vertex %d' % (nm, i), st, dd, evs_[0][2] if evs_ else split)
            st, dd = C.beq(twice, 0)
            C.put(r, 'repeated', '%s: vertex %d once' % (nm, i), st, dd, evs_[0][2] if evs_ else split)
        if C.p == 5 and many:
            for c, t, s in sums.get(want[0], []):
                for c2, t2, s2 in sums.get(want[1], []):
                    if B.AND(c, c2) and s is not s2:
                        C.put(r, 'repeated-order', nm, 'violation' if reach(g, s2, s, L) else 'ok',
                              'the last vertex comes before the first', s2)
    prev_count(r, C, split, S, copy, f, phi, init, [0, 0, 1, 0, 2, 2][C.p])
    # what is repeated comes first
    for e in C.kind.get('setIndex', []):
        if not copy(e) and C.ctx(e) is L:
            late = [s for s in looks if reach(g, e, s, L)]
            C.put(r, 'repeated-first', line(e), 'violation' if late else 'ok', 'vertices are repeated after the primitive', e)


def understood(C, t):
    return all(a[0] in ('sym', 'zext', 'trunc') for a in atoms_of(t)) if t[0] == 'p' else False


def pos_eq(C, t, w, X):
    """Position t (64-bit) is w."""
    if t[0] != 'p':
        return False
    g = C.g
    if t[1] == w[1]:
        return t == w
    if t[1] > w[1]:
        return t == g.cast('zext', w, t[1], w[1]) or g.cast('trunc', t, w[1], t[1]) == w
    return False


def prev_count(r, C, split, S, copy, f, phi, init, m):
    """The number of indices of the previous buffer is reduced by the repeated ones when all since the restart were
    repeated."""
    g, B = C.g, C.B
    L = C.ctx(split)
    ups = []
    for e in C.kind.get('store', []):
        if C.ctx(e) is not L or not copy(e):
            continue
        b = g.abase(e.ops[1])[0]
        if b is not None and b[0] == 'alloca':
            continue
        ad, v = g.term(e.ops[1], L), g.term(e.ops[0], L)
        want, cur = last_data(C, e, 12, 'i32', 2)
        # what was there: versions of that address, or as of the start of the buffer
        a1, w1 = C.c.subst(ad, f), C.c.subst(want, f)
        if a1 == w1:
            at = [x for x in subterms(v) if isinstance(x, tuple) and x and x[0] in ('ld', 'ldv') and x[1] == 'i32' and
                  C.c.subst(x[2], f) == w1]
            ups.append((e, v, cur, at))
    for e in C.kind.get('store', []):
        if C.ctx(e) is not None and C.ctx(e) is not L and copy(e):
            b = g.abase(e.ops[1])[0]
            if b is not None and b[0] == 'alloca':
                continue
            ad = g.term(e.ops[1], C.ctx(e))
            if C.c.subst(ad, f) == C.c.subst(last_data(C, e, 12, 'i32', 2)[0], f):
                r.und('previous-count', C.name, 'count changes in a loop', e.where())
                return
    for d in (list(range(DGEN)) + [None] if phi is not None else [0]):
        nm = '%s since the restart' % (d if d is not None else 'more') if phi is not None else 'list'
        if phi is not None:
            X = Since(C, phi, init, f, d)
            xt, xb = X.t, X.b
        else:
            xt, xb = (lambda t: C.c.subst(t, f)), (lambda n: C.c.bsubst(n, f))
        want = d if m and d is not None and d <= m else 0
        SX = xb(S)
        by = {}
        und = None
        for e, v, cur, at in ups:
            c = xb(g.cond(e.bb))
            old = {x: ('sym', 'OLD') for x in at}

            def z(x):
                return old.get(x)
            t = xt(C.c.subst(v, z))
            for c2, x in (t[1] if t[0] == 'ite' else [(1, t)]):
                cc = B.AND(c, c2)
                if cc == 0:
                    continue
                n = sconst(padd(x, A(32, ('sym', 'OLD')), -1)) if x[0] == 'p' else None
                if n is None:
                    und = 'count changes by %s' % show(x, B)
                elif n:
                    by[n] = B.OR(by.get(n, 0), cc)
        if und:
            r.und('previous-count', '%s %s' % (C.name, nm), und, split.where())
            continue
        for n, cc in by.items():
            if n != -want:
                st, dd = C.beq(cc, 0)
                C.put(r, 'previous-count', nm, st, 'count changes by %d instead of %d' % (n, -want), split)
        st, dd = C.beq(by.get(-want, 0), SX if want else by.get(-want, 0))
        C.put(r, 'previous-count', nm, st, dd, split)


# ------------------------------------------------------------------ V01
CTOR = dict(pure=[lambda d: False], member_sizes=[(lambda d: VECM.match(d), 24)])
FULLCTOR = 'vfc::Converter::Converter(std::vector<vfc::VertexFormat, std::allocator<vfc::VertexFormat>>, vfc::IndexType, ' \
    'vfc::PrimitiveType, unsigned int, unsigned int, std::function<void (char const*)>)'
MINCOUNT = [1, 2, 2, 3, 3, 3]


def ctor_module(ws, specs):
    return module(ws, [('ctor|%d|%d' % (p, t), FULLCTOR, {3: p, 2: t}) for p, t in specs], keep=['::logError'])


def primitive_values(ws):
    e = Module(ws.ir(ws.lib_sources(), spec=[], keep=[], inline=[], roots=[], emit=['^vfc::isElementValid',
                                                                                   '^vfc::primitiveTypeName']))
    m = e.enum('vfc::PrimitiveType')
    if [m.get(x) for x in PRIMS] != list(range(7)) or 'Invalid' not in m:
        raise AnalysisError('primitive types are numbered differently than the rules expect')
    return m


def c_v01(ws, r):
    pv = primitive_values(ws)
    specs = [(p, t) for p in list(range(7)) + [pv['Invalid']] for t in range(3)]
    m = ctor_module(ws, specs)
    for p, t in specs:
        r.count('configurations')
        name = '%s/%s' % (PRIMS[p] if 0 <= p < 7 else 'Invalid', ITYPES[t])
        guard(r, 'valid', name, lambda: v01(r, Fn(m, 'ctor|%d|%d' % (p, t), **CTOR), p, t, name))
    guard(r, 'delegates', 'constructors', lambda: delegates(ws, r))
    guard(r, 'valid', 'isValid', lambda: is_valid(ws, r))
    r.need('valid', 24)


def is_valid(ws, r):
    m = module(ws, [('s|vfw_isValid', 'vfw_isValid', {})])
    F = Fn(m, 's|vfw_isValid')
    g = F.g
    putb(r, F, 'is-valid', 'isValid', g.asbool(F.ret()),
         F.B.NOT(g.cmp('eq', padd(F.ld(F.arg(0), FMT + 8), F.ld(F.arg(0), FMT), -1), K(64, 0))))


def guard(r, rule, inst, f):
    try:
        f()
    except AnalysisError as e:
        if e.fatal:
            raise
        r.und(rule, inst, str(e))
    except Exception as e:
        # a shape that the rule does not follow
        r.und(rule, inst, 'not understood (%r)' % e)


def lifted(g, i):
    """Condition that instruction i runs at all."""
    B = g.B
    c = g.cond(i.bb)
    l = g.loop_of[i.bb]
    while l is not None:
        c = B.AND(g.region_reach(l.parent).get(g.nkey(l), 0), B.var(('ex', l.id, c)) if c else 0)
        l = l.parent
    return c


def streams(F):
    """Number of streams of the converter's format: the argument before it is moved, the member afterwards."""
    g = F.g
    return g.divterm('div', padd(F.ld(F.arg(0), FMT + 8), F.ld(F.arg(0), FMT), -1), K(64, 32))


def v01(r, F, p, t, name):
    g, B = F.g, F.B
    this = F.arg(0)
    pts, mx = F.arg(4, 32), F.arg(5, 32)
    ns = streams(F)
    q = A(64, ('qv', 0))
    fq = padd(F.ld(this, FMT), pmul(q, K(64, 32)))
    empty = g.cmp('eq', padd(F.ld(this, FMT + 8), F.ld(this, FMT), -1), K(64, 0))
    bad = B.OR(empty, F.EX(ns, g.cmp('eq', F.ld(fq), F.ld(fq, 8))))
    if not 0 <= p < 7:
        bad = 1
    if p == 6:
        bad = B.OR(bad, g.cmp('eq', pts, K(32, 0)))
    if t:
        top = K(32, 0xffff if t == 1 else 0xffffffff)
        if p == 6:
            low = B.AND(B.NOT(g.cmp('eq', pts, K(32, 0))), g.cmp('ult', mx, padd(pts, K(32, 1), -1)))
        else:
            low = g.cmp('ult', mx, K(32, (MINCOUNT[p] if 0 <= p < 7 else 1) - 1))
        high = B.NOT(g.cmp('ult', mx, top)) if p in STRIPS else g.cmp('ult', top, mx)
        bad = B.OR(bad, low, high)
    logs, clears, makes = 0, 0, []
    n = 0
    other = None
    for i, c in F.calls():
        d = i.get('dem', '')
        a = g.args(i)
        mm = MUTV.match(d)
        if 'logError' in d:
            n += 1
            logs = B.OR(logs, lifted(g, i))
        elif mm and a and a[0] == padd(this, K(64, FMT)) if FMT else mm and a and a[0] == this:
            if mm.group(1) == 'clear':
                clears = B.OR(clears, lifted(g, i))
            elif mm.group(1) not in ('vector', '~vector'):
                other = i
        elif mm and a and a[0] == padd(this, K(64, MAP)) and mm.group(1) not in ('vector', '~vector', 'reserve'):
            makes.append((i, mm.group(1), a))
    r.count('error reports', n)
    if other is not None:
        r.und('valid', name, 'the format is changed by ' + other['dem'][:60], other.where())
        return
    putb(r, F, 'valid', name, clears, bad)
    putb(r, F, 'error-exactly-if-invalid', name, logs, bad)
    for nm, off, ty, v in (('index type', ITYPE, 'i8', K(8, t)), ('primitive type', PRIM, 'i8', K(8, p & 255)),
                           ('patch points', PATCH, 'i32', pts), ('maximum index', MAXI, 'i32', mx), ('index count', ICOUNT, 'i32', K(32, 0))):
        putt(r, F, 'keeps', '%s %s' % (name, nm), F.final(padd(this, K(64, off)), ty), v)
    if not makes:
        r.und('mapping', name, 'way of creating the elements')
    for i, w, a in makes:
        l = g.loop_of[i.bb]
        if w not in ('emplace_back', 'push_back') or len(a) != 3 or l is None or l.trip is None:
            r.und('mapping', name, 'way of creating the elements', i.where())
            continue
        putt(r, F, 'mapping', name + ' streams', l.trip, ns, B.NOT(bad), where=i.where())
        fk = padd(F.ld(this, FMT), pmul(A(64, ('iv', l.id)), K(64, 32)))
        cnt = g.divterm('div', padd(F.ld(fk, 8), F.ld(fk), -1), K(64, 40))
        num = g.value_before(a[1], 'i64', i, l) if local(a[1]) else a[1]
        putt(r, F, 'mapping', name + ' elements', num, cnt, where=i.where())
        putb(r, F, 'mapping', name + ' for valid converters', lifted(g, i), B.AND(B.NOT(bad), F.EX(ns, 1)), B.NOT(empty), where=i.where())


def delegates(ws, r):
    """The other constructors pass their arguments on, with the largest index of the index type when no maximum is given."""
    vec = 'std::vector<vfc::VertexFormat, std::allocator<vfc::VertexFormat>>'
    ef = 'std::function<void (char const*)>'
    head = 'vfc::Converter::Converter(%s, vfc::IndexType, vfc::PrimitiveType, unsigned int, %s' + ef + ')'
    fns = {'format': (head % ('vfc::VertexFormat', ''), False), 'format with maximum': (head % ('vfc::VertexFormat', 'unsigned int, '), True),
           'formats': (head % (vec, ''), False)}
    sp = [('%s|%d' % (k, t), d, {2: t}) for k, (d, _) in fns.items() for t in range(3)]
    m = module(ws, sp, keep=['^' + re.escape(FULLCTOR) + '$', '::logError'])
    maxi = [0, 0xfffe, 0xfffffffe]
    for n, d, _ in sp:
        k, t = n.split('|')
        t = int(t)
        F = Fn(m, n, **CTOR)
        g = F.g
        inst = 'Converter(%s) %s' % (k, ITYPES[t])
        cs = [(i, c) for i, c in F.calls() if i.get('dem') == FULLCTOR]
        if len(cs) != 1 or cs[0][1] != 1:
            r.und('delegates', inst, 'does not call the complete constructor once')
            continue
        i, c = cs[0]
        a = g.args(i)
        withmax = fns[k][1]
        for what, x, y in (('object', a[0], F.arg(0)), ('index type', a[2], K(8, t)), ('primitive type', a[3], F.arg(3, 8)),
                           ('patch points', a[4], F.arg(4, 32)), ('maximum index', a[5], F.arg(5, 32) if withmax else K(32, maxi[t]))):
            putt(r, F, 'delegates', '%s %s' % (inst, what), x, y, where=i.where())


# ------------------------------------------------------------------ V02
ADDSTREAM = 'vfc::Converter::addVertexStream(vfc::VertexFormat, void const*, unsigned int, vfc::IndexType, void const*, unsigned int)'
COUNTVALID = lambda d: d.startswith('vfc::isVertexCountValid(')


def c_v02(ws, r):
    m = module(ws, [('add|%d|%d' % (p, t), ADDSTREAM, {4: t}, {0: {PRIM: p}}) for p in range(7) for t in range(3)],
               keep=['::logError', '^vfc::VertexFormat::find\\(char', '^vfc::isVertexCountValid'])
    if not layout_ok(m):
        raise AnalysisError('members of Converter are laid out differently than the rules expect')
    for p in range(7):
        for t in range(3):
            r.count('configurations')
            name = '%s/%s' % (PRIMS[p], ITYPES[t])
            guard(r, 'result', name, lambda: v02(r, m, p, t, name))
    r.need('result', 21)


def v02(r, m, p, t, name):
    F = Fn(m, 'add|%d|%d' % (p, t), pure=[COUNTVALID, FIND], member_sizes=[(lambda d: VECM.match(d), 24)],
           regions=[(o, 24) for o in (FMT, STREAMS, MAP, VERTS, INDS, IDATA)], readonly=[lambda d: 'logError' in d])
    g, B = F.g, F.B
    this, new = F.arg(0), F.arg(1)
    ns = streams(F)
    finds = [i for i in g.fn.all() if FIND(i.get('dem', ''))]
    cstr = [i for i in g.fn.all() if IS_CSTR(i.get('dem', ''))]
    cv = [i for i in g.fn.all() if COUNTVALID(i.get('dem', ''))]
    if not finds or not cstr or not cv:
        raise AnalysisError('addVertexStream() looks for elements or checks the count in a way that is not understood')

    def fmt(k):
        return padd(F.ld(this, FMT), pmul(k, K(64, 32)))

    def ne(k):
        return g.divterm('div', padd(F.ld(fmt(k), 8), F.ld(fmt(k)), -1), K(64, 40))

    def look(k, l):
        el = padd(F.ld(fmt(k)), pmul(l, K(64, 40)))
        return A(64, ('call', finds[0]['dem'], (new, A(64, ('call', cstr[0]['dem'], (el,))))))

    def has(k, l):
        return B.NOT(g.cmp('eq', look(k, l), F.ld(new, 8)))
    q0, q1 = A(64, ('qv', 0)), A(64, ('qv', 1))
    isset = lambda k, l: B.NOT(g.cmp('eq', F.g.initial(mapped(F, k, l, 8), 'i64'), K(64, 0)))
    dup = F.EX(ns, F.EX(ne(q0), B.AND(has(q0, q1), isset(q0, q1))))
    some = F.EX(ns, F.EX(ne(q0), has(q0, q1)))
    valid = B.NOT(g.cmp('eq', padd(F.ld(this, FMT + 8), F.ld(this, FMT), -1), K(64, 0)))
    z = K(64, 0)
    params = B.NOT(g.cmp('eq', F.arg(2), z))
    if t:
        params = B.AND(params, B.NOT(g.cmp('eq', F.arg(5), z)))
    count = F.arg(6 if t else 3, 32)
    old = F.ld(this, ICOUNT, 'i32')
    nostreams = g.cmp('eq', padd(F.ld(this, STREAMS + 8), F.ld(this, STREAMS), -1), z)
    same = B.OR(B.AND(g.cmp('eq', old, K(32, 0)), nostreams), g.cmp('eq', old, count))
    good = B.var(('call', cv[0]['dem'], (K(8, p), count, F.ld(this, PATCH, 'i32'))))
    ok = B.AND(valid, params, same, good, B.NOT(dup))
    rv = F.ret()
    if rv is None or rv[0] != 'b':
        raise AnalysisError('no boolean result')
    putb(r, F, 'result', name, rv[1], ok)
    logs = 0
    n = 0
    for i, c in F.calls():
        if 'logError' in i.get('dem', ''):
            logs = B.OR(logs, lifted(g, i))
            n += 1
    r.count('error reports', n)
    putb(r, F, 'error-exactly-if-refused', name, logs, B.NOT(ok))
    # what is committed
    inv = B.OR(B.NOT(nostreams), B.NOT(dup))          # elements only point into streams
    want = {0: 'source stream', 8: 'source element'}
    wrote = {}
    nst = g.divterm('div', padd(F.ld(this, STREAMS + 8), F.ld(this, STREAMS), -1), K(64, 56))
    for i, c in effects(g):
        l = g.loop_of[i.bb]
        nm = '%s line %s' % (name, i.loc().split(':')[-1])
        if i.op == 'store':
            pt = g.term(i.ops[1], l)
            v = g.term(i.ops[0], l)
            if pt == padd(this, K(64, ICOUNT)):
                putt(r, F, 'commit-count', nm, v, count, where=i.where())
                putb(r, F, 'refused-unchanged', nm, B.AND(lifted(g, i), B.NOT(ok), B.NOT(g.cmp('eq', old, count))), 0, inv, i.where())
                wrote['count'] = B.OR(wrote.get('count', 0), lifted(g, i))
                continue
            if pt[0] != 'p' or not any(x == ('ld', 'i64', padd(this, K(64, MAP))) for x in subterms(pt)):
                if pt[0] == 'p' and root_off(pt)[0] == this:
                    putb(r, F, 'refused-unchanged', nm, B.AND(lifted(g, i), B.NOT(ok)), 0, inv, i.where())
                continue
            off = sum(c for k, c in pt[2] if k == ())
            if l is None or l.parent is None or l.parent.parent is not None or off not in want:
                r.und('commit-mapping', nm, 'writes ' + show(pt), i.where())
                continue
            k, e = A(64, ('iv', l.parent.id)), A(64, ('iv', l.id))
            putt(r, F, 'commit-mapping', nm + ' streams visited', l.parent.trip, ns, where=i.where())
            putt(r, F, 'commit-mapping', nm + ' elements visited', l.trip, ne(k), where=i.where())
            putt(r, F, 'commit-mapping', nm + ' place', pt, mapped(F, k, e, off), where=i.where())
            if off == 8:
                putt(r, F, 'commit-mapping', nm + ' ' + want[off], v, look(k, e), has(k, e), where=i.where())
            else:
                putt(r, F, 'commit-mapping', nm + ' ' + want[off], v, g.cast('trunc', nst, 32, 64), where=i.where())
            for x, n, more in ((l, ne(k), lambda z: has(k, z)), (l.parent, ns, lambda z: F.EX(ne(z), has(z, q0)))):
                z = A(64, ('iv', x.id))
                z1 = padd(z, K(64, 1))
                out = [g.edge(u, v, x) for u, v in x.exits if (u, v) != x.trip_edge]
                putb(r, F, 'commit-mapping', '%s no %s left out' % (nm, 'elements' if x is l else 'streams'),
                     B.AND(B.OR(0, *out), g.cmp('ult', z1, n), more(z1)), 0, where=i.where())
            it = B.AND(g.cond(i.bb), g.region_reach(l.parent).get(g.nkey(l), 0))
            putb(r, F, 'commit-mapping', nm + ' exactly the elements it has', it, has(k, e), where=i.where())
            putb(r, F, 'refused-unchanged', nm, B.AND(lifted(g, i), B.NOT(ok)), 0, inv, i.where())
            wrote[off] = B.OR(wrote.get(off, 0), g.region_reach(None).get(g.nkey(l.parent), 0))
        elif i.op in ('call', 'invoke'):
            mm = MUTV.match(i.get('dem', ''))
            a = g.args(i) if i['args'] else []
            if not mm or not a or root_off(a[0])[0] != this or mm.group(1) in ('vector', '~vector', 'reserve'):
                continue
            putb(r, F, 'refused-unchanged', nm, B.AND(lifted(g, i), B.NOT(ok)), 0, inv, i.where())
            if a[0] != padd(this, K(64, STREAMS)) or mm.group(1) not in ('push_back', 'emplace_back') or l is not None or len(a) != 2:
                r.und('commit-stream', nm, mm.group(1), i.where())
                continue
            wrote['stream'] = B.OR(wrote.get('stream', 0), lifted(g, i))
            for what, o, ty, v in (('vertex data', 0, 'i64', F.arg(2)), ('index data', 8, 'i64', F.arg(5)),
                                   ('stride', 40, 'i32', F.ld(new, 24, 'i32')), ('vertex count', 48, 'i32', F.arg(3, 32)),
                                   ('index type', 52, 'i8', K(8, t))):
                if o == 8 and t == 0:
                    continue
                putt(r, F, 'commit-stream', '%s %s' % (nm, what), g.value_before(padd(a[1], K(64, o)), ty, i, l), v, where=i.where())
            moves = [x for x, _ in F.calls() if MUTV.match(x.get('dem', '')) and MUTV.match(x['dem']).group(1) == 'vector' and
                     g.args(x)[0] == padd(a[1], K(64, 16)) and len(x['args']) == 2 and g.args(x)[1] == new and
                     g.fn.dominates(x.bb, i.bb)]
            r.put('ok' if moves else 'undecided', 'commit-stream', nm + ' elements', '', i.where())
    for k, w, spec in ((0, 'mapping', B.AND(ok, some)), (8, 'mapping', B.AND(ok, some)), ('stream', 'stream', B.AND(ok, some)),
                       ('count', 'count', ok)):
        if k not in wrote:
            r.und('committed', '%s %s' % (name, w), 'not found')
        elif k in (0, 8):
            putb(r, F, 'committed', '%s %s' % (name, want[k]), B.AND(spec, B.NOT(wrote[k])), 0)
        else:
            putb(r, F, 'committed', '%s %s' % (name, w), B.AND(spec, B.NOT(wrote[k])), 0)
