"""T03, T04: the configuration file."""
import re
from .. import lib
from ..build import AnalysisError
from ..ir import Module
from ..lib import *
from ..terms import *
from .tool_checks import tool_srcs

LOAD = 'ConfigFile::load(char const*, char const*, std::function<void (char const*)> const&)'
STDVEC = r'^[^()]*std::vector<[^()]*>::[^()]*\('
# Kept as calls in the tool's functions; everything else that has a definition is inlined.
TBASE = [VEC, 'operator delete', 'operator new', '^std::function<'] + HASH + STR
RJ = re.compile(r'^[^()]*rapidjson::Generic(?:Value|Document)<[^()]*>::(~?[A-Za-z]\w*|operator[^ (]+)(?:<[^()]*>)?\(')
CONST = {'FindMember', 'MemberBegin', 'MemberEnd', 'HasMember', 'Begin', 'End', 'Size', 'Empty', 'MemberCount', 'ObjectEmpty',
         'HasParseError', 'GetErrorOffset', 'GetParseError', 'Capacity', 'operator[]', 'operator==', 'operator!='}
CTOR = {'GenericValue', 'GenericDocument', '~GenericValue', '~GenericDocument'}


def rj(d):
    """Name of the rapidjson value method."""
    mm = RJ.match(d)
    return mm.group(1) if mm else None


def reads(n):
    return n in CONST or re.match(r'(Is|Get)[A-Z]', n or '') is not None


PURE = [lambda d: reads(rj(d)) and rj(d) not in ('operator==', 'operator!='),
        lambda d: re.match(r'vfc::\w+FromName\(char const\*\)$', d) is not None]
STRING = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'
MEMBER_SIZES = [(lambda d: re.match(r'^(void |[^()]*& )?std::vector<', d) is not None, 24),
                (lambda d: d.startswith('vfc::VertexFormat::'), 32),
                (lambda d: d.startswith(STRING), 32)]


def tmodule(ws, specs, keep=(), **kw):
    """Summaries of functions of the tool with what they call in the tool inlined."""
    sp = [dict(fn=f, name=n, args={}, fields={}) for n, f in specs]
    kw.setdefault('post', POST)
    kw.setdefault('final', FINAL)
    d = ws.ir(tool_srcs(ws), spec=sp, keep=TBASE + list(keep), inline=[], roots=[], unroll=8, **kw)
    return Module(d)


class Config:
    def __init__(self, ws):
        self.m = m = tmodule(ws, [('load', LOAD)], keep=[
            r'^[^()]*rapidjson::Generic(Value|Document)<[^()]*>::[^()]*\(', '^vfc::', '^std::basic_[io]', '^std::to_string',
            '^std::(__cxx11::)?to_string', '^std::pair', '^str', '^getErrorString', '^errorMessageStart'])
        self.F = F = Fn(m, 'load', pure=PURE, track_args=True, member_sizes=MEMBER_SIZES, nested=True)
        self.g, self.B = F.g, F.B
        g = F.g
        self.calls = [i for i in g.fn.all() if i.op in ('call', 'invoke')]
        self.doc = set()
        for i in self.calls:
            if rj(i['dem']) == 'Parse' or 'ParseStream' in i['dem']:
                a = atom_of(g.args(i)[0])
                if a is not None and a[0] == 'alloca':
                    self.doc.add(a)
        self.sret = {}
        for i in self.calls:
            n = rj(i['dem'])
            if n in ('FindMember', 'MemberEnd', 'MemberBegin'):
                a = g.args(i)
                want = 2 if n == 'FindMember' else 1
                if len(a) == want + 1:
                    self.sret[i.id] = (n, a)
        self._f = self.rewrite

    # ------------------------------------------------------------ values
    def path(self, t):
        """The JSON value that a pointer refers to."""
        if t[0] != 'p':
            return None
        a = patom(t)
        if a is not None and a in self.doc:
            return ('root',)
        if a is not None and a[0] == 'call' and rj(a[1]) == 'Parse' and patom(a[2][0]) in self.doc:
            return ('root',)
        base, rest = None, K(64, 0)
        for k, c in t[2]:
            if len(k) == 1 and k[0][0] == 'sym' and k[0][1] in ('fm', 'begin', 'at') and c == 1 and base is None:
                base = k[0]
            else:
                x = K(64, c)
                for y in k:
                    x = pmul(x, A(64, y))
                rest = padd(rest, x)
        if base is None:
            return None
        if base[1] == 'fm':
            return ('mem', base[2], base[3]) if sconst(rest) == 16 else None
        if base[1] == 'at':
            return base[2] if sconst(rest) == 0 else None
        if any(c % 16 for _, c in rest[2]):
            return None
        return ('elem', base[2], P(64, {k: c//16 for k, c in rest[2]}))

    def text(self, t):
        s = string_of(self.m, t)
        if s is not None:
            return s.decode('latin-1') if isinstance(s, bytes) else s
        return None

    def rewrite(self, x):
        """Canonical form of atoms that read the document."""
        k = x[0]
        if k == 'ldv' and x[3] in self.sret and x[1] == 'i64':
            n, a = self.sret[x[3]]
            if a[0] == x[2]:
                return self.read(n, [self.cv(y) for y in a[1:]])
            return None
        if k == 'call':
            n = rj(x[1])
            if n is not None and reads(n):
                return self.read(n, list(x[2]))
            if x[1] in ('strcasecmp', 'strcmp') and len(x[2]) == 2:
                a, b = x[2]
                for a, b in ((a, b), (b, a)):
                    s = self.text(b)
                    p = atom_of(a)
                    if s is not None and p is not None and p[0] == 'sym':
                        return ('sym', 'ieq' if x[1] == 'strcasecmp' else 'same', p, s.lower() if x[1] == 'strcasecmp' else s)
            if x[1] in ('strncasecmp', 'strncmp') and len(x[2]) == 3:
                a, b, n = x[2]
                n = sconst(n)
                for a, b in ((a, b), (b, a)):
                    s = self.text(b)
                    p = atom_of(a)
                    if s is not None and n is not None and n > 0 and p is not None and p[0] == 'sym':
                        f = x[1] == 'strncasecmp'
                        k = ('ieq' if f else 'same') if n > len(s) else ('iprefix' if f else 'prefix')
                        return ('sym', k, p, s[:n].lower() if f else s[:n])
            return None
        if k == 'bool' and x[1][0] == 'sym':
            x = x[1]
            k = 'sym'
            if x[1] != 'empty':
                return x
        if k == 'sym' and x[1] == 'empty':
            return ('b', self.g.cmp('eq', A(64, ('sym', 'size', x[2])), K(64, 0)))
        if k in ('ltc', 'eq') and x[2] == (1 if k == 'ltc' else 0):
            # first character of a string
            a = atom_of(x[1])
            if a is not None and a[0] in ('ld', 'ldv') and a[1] == 'i8':
                p = atom_of(a[2])
                if p is not None and p[:2] == ('sym', 'GetString'):
                    return ('sym', 'ieq', p, '')
        if k == 'ltc' and x[2] == 1:
            a = atom_of(x[1])
            if a is not None and a[0] == 'sym' and a[1] in ('ieq', 'same', 'iprefix', 'prefix'):
                return a
            return self.found(x[1])
        if k == 'eq' and x[2] == 0:
            return self.found(x[1])
        if k == 'div' and x[1][0] == 'p' and pconst(x[2]) == 16:
            d = dict(x[1][2])
            M = (1 << 64) - 1
            for kk, c in d.items():
                if len(kk) == 1 and kk[0][0] == 'sym' and kk[0][1] == 'end':
                    if d == {kk: 1, (('sym', 'begin', kk[0][2]),): M} or d == {kk: 1, (('sym', 'begin', kk[0][2]),): -1}:
                        return ('sym', 'size', kk[0][2])
        if k == 'zext' and x[2][0] == 'p':
            a = atom_of(x[2])
            if a is not None and a[0] == 'sym' and a[1] == 'size':
                return a
        return None

    def found(self, p):
        """eq(FindMember - MemberEnd, 0)."""
        if p[0] != 'p' or len(p[2]) != 2:
            return None
        ks = [k[0] for k, _ in p[2] if len(k) == 1 and k[0][0] == 'sym']
        if len(ks) != 2:
            return None
        a, b = sorted(ks, key=lambda s: s[1])
        if a[1] == 'fm' and b[1] == 'mend' and a[2] == b[2]:
            return ('b', self.B.NOT(self.B.var(('sym', 'found', a[2], a[3]))))
        return None

    def read(self, n, a):
        v = self.path(a[0])
        if n in ('HasParseError', 'GetErrorOffset', 'GetParseError'):
            return ('sym', n)
        if v is None:
            return None
        if n == 'FindMember':
            s = self.text(a[1])
            return ('sym', 'fm', v, s if s is not None else a[1])
        if n == 'HasMember':
            s = self.text(a[1])
            return ('sym', 'found', v, s if s is not None else a[1])
        if n == 'MemberEnd':
            return ('sym', 'mend', v)
        if n == 'Begin':
            return ('sym', 'begin', v)
        if n == 'End':
            return ('sym', 'end', v)
        if n == 'Size':
            return ('sym', 'size', v)
        if n == 'Empty':
            return ('sym', 'empty', v)
        if n == 'operator[]':
            s = self.text(a[1])
            if s is not None:
                return ('sym', 'at', ('mem', v, s))
            if a[1][0] == 'p':
                i = a[1] if a[1][1] == 64 else self.g.cast('zext', a[1], 64)
                return ('sym', 'at', ('elem', v, i)) if i[0] == 'p' else None
            return None
        if n.startswith('Is'):
            return ('sym', 'is', n[2:], v)
        if n.startswith('Get'):
            return ('sym', n, v)
        return None

    def cv(self, t):
        return self.F.c.subst(t, self._f)

    def cb(self, n):
        return self.F.c.bsubst(n, self._f)

    # ------------------------------------------------------------ facts
    def var(self, *a):
        return self.B.var(('sym',) + a)

    def facts(self):
        """What holds for every value: each is of one type, arrays end after their elements."""
        if not hasattr(self, '_facts'):
            self._facts = {}
        return self._facts

    def axioms(self, *ns):
        """Types exclude each other; Int is a Number and so on."""
        B = self.B
        seen = {}
        texts, begins = {}, {}
        for n in ns:
            for v in B.support(n):
                a = B.atoms[v]
                if a[0] == 'sym' and a[1] in ('ieq', 'same'):
                    texts.setdefault(a[2], {})[a] = a[3].lower()
                if a[0] == 'sym' and a[1] in ('iprefix', 'prefix'):
                    begins.setdefault(a[2], []).append(a)
                if a[0] == 'sym' and a[1] == 'is':
                    seen.setdefault(a[3], set()).add(a[2])
        r = 1
        for p, bs in begins.items():
            for x in bs:
                # a name that begins with it, or not
                for y, t in texts.get(p, {}).items():
                    if not t.startswith(x[3].lower()):
                        r = B.AND(r, B.NOT(B.AND(B.var(x), B.var(y))))
                    elif x[1] == 'iprefix' or y[1] == 'same' and y[3].startswith(x[3]):
                        r = B.AND(r, B.OR(B.NOT(B.var(y)), B.var(x)))
                    elif y[1] == 'same':
                        r = B.AND(r, B.NOT(B.AND(B.var(x), B.var(y))))
                for y in bs:
                    u, v = x[3].lower(), y[3].lower()
                    if x is not y and not u.startswith(v) and not v.startswith(u):
                        r = B.AND(r, B.NOT(B.AND(B.var(x), B.var(y))))
                    elif x is not y and u.startswith(v) and (y[1] == 'iprefix' or x[1] == y[1] and x[3].startswith(y[3])):
                        r = B.AND(r, B.OR(B.NOT(B.var(x)), B.var(y)))
        for t in texts.values():
            t = list(t.items())
            for i, (x, xs) in enumerate(t):
                for y, ys in t[i + 1:]:
                    if xs != ys or x[1] == y[1] == 'same':
                        r = B.AND(r, B.NOT(B.AND(B.var(x), B.var(y))))
                    else:
                        a, b = (x, y) if x[1] == 'same' else (y, x)
                        r = B.AND(r, B.OR(B.NOT(B.var(a)), B.var(b)))
        excl = ['Null', 'Object', 'Array', 'String', 'Number', 'Bool']
        sub = {'Int': 'Number', 'Uint': 'Number', 'Int64': 'Number', 'Uint64': 'Number', 'Double': 'Number', 'Float': 'Number',
               'LosslessDouble': 'Number', 'LosslessFloat': 'Number', 'True': 'Bool', 'False': 'Bool'}
        for v, ts in seen.items():
            kinds = {}
            for t in ts:
                kinds.setdefault(sub.get(t, t), []).append(self.var('is', t, v))
                if t in sub and sub[t] in ts:
                    r = B.AND(r, B.OR(B.NOT(self.var('is', t, v)), self.var('is', sub[t], v)))
            ks = [k for k in kinds if k in excl]
            for i, x in enumerate(ks):
                for y in ks[i + 1:]:
                    for p in kinds[x]:
                        for q in kinds[y]:
                            r = B.AND(r, B.NOT(B.AND(p, q)))
        return r


def vname(v):
    if v[0] == 'root':
        return 'root'
    if v[0] == 'mem':
        return '%s.%s' % (vname(v[1]), v[2] if isinstance(v[2], str) else '?')
    return vname(v[1]) + '[]'


NEEDS = {'Begin': 'Array', 'End': 'Array', 'Size': 'Array', 'Empty': 'Array', 'Capacity': 'Array', 'FindMember': 'Object',
         'MemberBegin': 'Object', 'MemberEnd': 'Object', 'HasMember': 'Object', 'MemberCount': 'Object', 'ObjectEmpty': 'Object',
         'GetString': 'String', 'GetStringLength': 'String', 'GetInt': 'Int', 'GetUint': 'Uint', 'GetInt64': 'Int64',
         'GetUint64': 'Uint64', 'GetDouble': 'Number', 'GetFloat': 'Number', 'GetBool': 'Bool', 'GetArray': 'Array',
         'GetObject': 'Object'}


def c_t03(ws, r):
    C = Config(ws)
    g, B = C.g, C.B
    if len(C.doc) != 1:
        raise AnalysisError('no single document is parsed')

    def alts(t):
        return t[1] if t[0] == 'ite' else ((1, t),)

    def require(rule, inst, req, pc, i):
        c = B.AND(pc, B.NOT(req))
        if B.AND(c, C.axioms(c)) == 0:
            r.ok(rule, inst)
            return
        # a requirement that was established by an earlier loop over the same values is not followed
        ks = {B.atoms[v][:3] for v in B.support(req)}
        for v in B.support(pc):
            a = B.atoms[v]
            if a[0] in ('ex', 'EX'):
                for w in B.support(a[2]):
                    if B.atoms[w][:3] in ks or B.atoms[w][:2] == ('sym', 'found'):
                        if B.atoms[w][:2] == next(iter(ks))[:2]:
                            return r.und(rule, inst, 'may be established by an earlier loop', i.where())
        if opaque(C, pc):
            return r.und(rule, inst, opaque(C, pc), i.where())
        r.bad(rule, inst, 'without that being known', i.where())

    def exists(v, pc, i):
        """The value itself is there."""
        if v[0] == 'mem':
            r.count('members used')
            require('present', 'use of %s' % vname(v), C.var('found', v[1], v[2]), pc, i)
        elif v[0] == 'elem':
            r.count('elements used')
            inrange(v, pc, i)

    def inrange(v, pc, i):
        inst = 'use of %s' % vname(v)
        l = g.loop_of[i.bb]
        while l is not None:
            if l.trip is not None and v[2] == A(64, ('iv', l.id)):
                trip = atom_of(C.cv(l.trip))
                if trip == ('sym', 'size', v[1]):
                    u = l.trip_edge[0]
                    w = [s for s in g.fn.succ[u] if s != l.trip_edge[1]]
                    if u != i.bb and w and all(g.fn.dominates(x, i.bb) for x in w[:1]):
                        return r.ok('in-range', inst)
                    if u == i.bb:
                        return r.und('in-range', inst, 'not after the comparison', i.where())
            l = l.parent
        lt = g.cmp('ult', v[2], A(64, ('sym', 'size', v[1])))
        if B.AND(pc, B.NOT(lt)) == 0:
            return r.ok('in-range', inst)
        c = sconst(v[2])
        if c is not None:
            return r.bad('in-range', inst, 'element %d without that being known' % c, i.where())
        r.und('in-range', inst, 'index %s' % show(v[2])[:80], i.where())
    for i in C.calls:
        n = rj(i['dem'])
        if n is None:
            continue
        if n in CTOR:
            continue
        pc = C.cb(g.full(i.bb))
        if not reads(n):
            r.count('changes of the document')
            a = C.path(C.cv(g.args(i)[0]))
            if n not in ('Parse', 'ParseStream', 'ParseInsitu'):
                r.und('unchanged', 'document', 'is changed by %s' % n, i.where())
            continue
        if n in ('HasParseError', 'GetErrorOffset', 'GetParseError'):
            continue
        r.count('accesses')
        a = g.args(i)
        this = C.cv(a[1] if i.id in C.sret else a[0])
        for c, t in alts(this):
            v = C.path(t)
            p2 = B.AND(pc, C.cb(c))
            if p2 == 0:
                continue
            if v is None:
                r.und('type', '%s of a value that is not understood' % n, show(t)[:120], i.where())
                continue
            exists(v, p2, i)
            # nothing is in the document unless it could be parsed
            need = NEEDS.get(n)
            if n == 'operator[]':
                key = C.text(C.cv(a[1]))
                need = 'Object' if key is not None else 'Array'
                if key is not None:
                    require('present', 'use of %s.%s' % (vname(v), key), C.var('found', v, key), p2, i)
                else:
                    x = C.path(A(64, C.read(n, [t, C.cv(a[1])]) or ('sym', 'x')))
                    if x is None:
                        r.und('in-range', '%s[]' % vname(v), 'index is not understood', i.where())
                    else:
                        inrange(x, p2, i)
            if need is None:
                if not n.startswith('Is'):
                    r.und('type', '%s of %s' % (n, vname(v)), 'unknown accessor', i.where())
                continue
            if v == ('root',):
                require('parsed', '%s of %s' % (n, vname(v)), B.NOT(C.var('HasParseError')), p2, i)
            require('type', '%s of %s' % (n, vname(v)), C.var('is', need, v), p2, i)
    r.need('type', 40)
    r.need('present', 10)
    r.need('in-range', 10)


def opaque(C, n):
    """A condition that cannot be evaluated, so that the path may not exist."""
    return ''
