"""T12: joining and splitting paths, for every string.

The functions are interpreted over shapes of strings: whether a string is empty, where its last separator is (nowhere, at the
start, further on) and what its first and last characters are.  These are all that the documented results depend on; every
string has exactly one shape.  Results are followed as pieces of the arguments."""
from itertools import product
from ..ir import Module
from .main_checks import *

NPOS = (1 << 64) - 1
SEP = 47
CH = (0, ord('\\'), ord(':'), 'x')          # classes of other characters


class Shape(tuple):
    """(empty, position of the last separator, it is the last character, first, last, one character)"""
    e = property(lambda s: s[0])
    pos = property(lambda s: s[1])
    atend = property(lambda s: s[2])
    first = property(lambda s: s[3])
    last = property(lambda s: s[4])
    one = property(lambda s: s[5])

    def __str__(self):
        if self.e:
            return "''"
        c = lambda x: {0: '\\0', SEP: '/', 'x': 'a'}.get(x) or chr(x)
        if self.one:
            return "'%s'" % c(self.first)
        mid = {'npos': '', 0: '' if self.atend else 'b', 'mid': 'b' if self.atend else '/b'}[self.pos]
        return "'%s%s%s'" % (c(self.first), mid, c(self.last))


def shapes():
    out = [Shape((1, 'npos', 0, 0, None, 0))]
    for c in CH:
        out.append(Shape((0, 'npos', 0, c, c, 1)))
        for d in CH:
            out.append(Shape((0, 'npos', 0, c, d, 0)))
    out.append(Shape((0, 0, 1, SEP, SEP, 1)))
    for d in CH:
        out.append(Shape((0, 0, 0, SEP, d, 0)))
    for c in CH + (SEP,):
        out.append(Shape((0, 'mid', 1, c, SEP, 0)))
        for d in CH:
            out.append(Shape((0, 'mid', 0, c, d, 0)))
    return frozenset(out)


SHAPES = shapes()


def shape_of(y):
    """Shape of a string without null characters."""
    if not y:
        return Shape((1, 'npos', 0, 0, None, 0))
    k = y.rfind('/')
    cl = lambda z: ord(z) if ord(z) == SEP or ord(z) in CH else 'x'
    pos = 'npos' if k < 0 else 0 if k == 0 else 'mid'
    s = Shape((0, pos, int(k == len(y) - 1 and k >= 0), cl(y[0]), cl(y[-1]), int(len(y) == 1)))
    assert s in SHAPES
    return s


BIG = 1 << 60


class PathFlow(MainFlow):
    eager = True

    def __init__(self, ws, m, name, params):
        self.ws, self.raw, self.recursive, self.mkdirs = ws, None, set(), set()
        Flow.__init__(self, Fn(m, name, pure=PUREM, track_args=True))
        self.found, self.sites, self._later, self.errfn = {}, {}, {}, {}
        self.outdir = self.indir = ('none',)
        self.params = params
        self.sret = self.fn.rtype == 'void' if hasattr(self.fn, 'rtype') else None
        self.results = []

    def start(self):
        st = St()
        n = len(self.fn.args)
        k0 = n - len(self.params)
        for k, p in enumerate(self.params):
            st.obj[(('arg', k0 + k), 0)] = (('s', p),)
            st.bit[('m', p)] = SHAPES
        return st

    def imp(self, st, why):
        st.bit['imp'] = st.bit.get('imp') or why

    def local(self, p):
        return p[0] != 't' and p[0][0] in ('alloca', 'arg')

    def forget(self, st):
        pass

    def across(self, u, v, st):
        return [st]

    # ---- numbers
    def num(self, v, s):
        """(low, high) of a number for a shape, None if unknown."""
        if isinstance(v, int):
            return v, v
        if isinstance(v, tuple) and v[0] == 'pos':
            k = v[3]
            if s.pos == 'npos':
                x = (NPOS + k) & NPOS
                return x, x
            if s.pos == 0:
                return (k & NPOS,)*2
            # the first separator is at the start or further on
            if v[1] == 'first' and s.first == SEP:
                return (k & NPOS,)*2
            return (1 + k, BIG + k)
        if isinstance(v, tuple) and v[0] == 'len':
            k = v[3]
            if s.e:
                return (k & NPOS,)*2
            if s.one:
                return ((1 + k) & NPOS,)*2
            return (2 + k, BIG + 8 + k)
        if isinstance(v, tuple) and v[0] == 'ch':
            c = {'first': s.first, 'last': s.last, 'pos': SEP if s.pos != 'npos' else None}[v[2]]
            if c is None:
                return None
            return (128 if c == 'x' else c,)*2
        return None

    def test(self, pred, a, b, s):
        """Truth of a comparison for a shape: 0, 1 or None."""
        for x, y, f in ((a, b, 1), (b, a, 0)):
            if isinstance(x, tuple) and x[0] == 'ch' and isinstance(y, int):
                c = self.num(x, s)
                if c is None:
                    return None
                if pred not in ('eq', 'ne'):
                    return None
                y &= 255
                if c[0] == 128 and y in (SEP,) + CH[:-1]:
                    return int(pred == 'ne')
                if c[0] == 128:
                    return None
                return int((c[0] == y) == (pred == 'eq'))
        if isinstance(a, tuple) and isinstance(b, tuple) and {a[0], b[0]} == {'pos', 'len'} and s.pos != 'npos':
            # distance of the separator from the end
            p, q = (a, b) if a[0] == 'pos' else (b, a)
            lo, hi = (-1, -1) if s.atend else (-BIG, -2)
            if s.pos == 0 and s.one:
                lo = hi = -1
            if p[1] == 'first':
                lo, hi = -BIG, -2 if not s.atend else -1
            d = (lo + p[3] - q[3], hi + p[3] - q[3])
            if a[0] != 'pos':
                d = (-d[1], -d[0])
            x, y = d, (0, 0)
        else:
            x, y = self.num(a, s), self.num(b, s)
            if x is None or y is None:
                return None
        if pred[0] == 's':
            sg = lambda z: z - (1 << 64) if z >> 63 and z > 0 else z
            x, y = tuple(map(sg, x)), tuple(map(sg, y))
        p = pred[1:] if pred[0] in 'us' and pred not in ('eq', 'ne') else pred
        if p in ('gt', 'le'):
            x, y, neg = (y, x, 0) if p == 'gt' else (y, x, 1)
            p = 'lt'
        else:
            neg = 0
        if p == 'ge':
            p, neg = 'lt', 1
        if p in ('eq', 'ne'):
            r = 1 if x == y and x[0] == x[1] else 0 if x[1] < y[0] or y[1] < x[0] else None
            return r if r is None or p == 'eq' else 1 - r
        r = 1 if x[1] < y[0] else 0 if x[0] >= y[1] else None
        return r if r is None or not neg else 1 - r

    def known(self, o, st):
        if o[0] == 'g' and self.table(o[1]) is not None:
            return ('cp', o[1], int(o[2]))
        return super().known(o, st)

    def table(self, name):
        g = self.m.globals.get(name)
        if g is None or not g.get('const') or 'hex' not in g:
            return None
        return bytes.fromhex(g['hex'])

    def compute(self, i, st):
        k = i.op
        if k in ('add', 'sub'):
            a, b = self.known(i.ops[0], st), self.known(i.ops[1], st)
            sg = lambda z: z - (1 << 64) if z >> 63 else z
            if isinstance(a, int) and isinstance(b, int):
                return (a + b if k == 'add' else a - b) & NPOS
            if k == 'add' and isinstance(a, int):
                a, b = b, a
            if isinstance(a, tuple) and a[0] in ('pos', 'len') and isinstance(b, int):
                return a[:3] + (a[3] + (sg(b) if k == 'add' else -sg(b)),)
            return None
        if k == 'getelementptr':
            b = self.known(i['base'], st)
            if isinstance(b, tuple) and b[0] == 'cp':
                off = b[2] + i['off']
                for x, sc in i.get('idx', []):
                    v = self.known(x, st)
                    if not isinstance(v, int):
                        return 'nz'
                    off += sc*v
                return ('cp', b[1], off & NPOS)
        if k == 'icmp':
            a, b = self.known(i.ops[0], st), self.known(i.ops[1], st)
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'cp' and a[1] == b[1] and i['pred'] in ('eq', 'ne'):
                return int((a[2] == b[2]) == (i['pred'] == 'eq'))
            if isinstance(a, tuple) and a[0] == 'cp' or isinstance(b, tuple) and b[0] == 'cp':
                return int(i['pred'] == 'ne') if 0 in (a, b) and i['pred'] in ('eq', 'ne') else None
        if k == 'trunc':
            x = self.known(i.ops[0], st)
            return x if isinstance(x, tuple) and x[0] == 'ch' else super().compute(i, st)
        if k == 'icmp':
            a, b = self.known(i.ops[0], st), self.known(i.ops[1], st)
            if isinstance(a, tuple) and a[0] == 'tot' and isinstance(b, int) and b < 1 << 32:
                lo, hi = self.total(a[1], st)
                return {'ugt': 1 if lo > b else 0 if hi <= b else None, 'ult': 1 if hi < b else 0 if lo >= b else None,
                        'eq': 1 if lo == hi == b else 0 if b < lo or b > hi else None,
                        'ne': 0 if lo == hi == b else 1 if b < lo or b > hi else None}.get(i['pred'])
            if isinstance(a, tuple) or isinstance(b, tuple):
                p = self.param(a) or self.param(b)
                if p is None:
                    return None
                r = {self.test(i['pred'], a, b, s) for s in st.bit[('m', p)]}
                return r.pop() if len(r) == 1 else None
            return super().compute(i, st)
        if k in ('and', 'or', 'xor'):
            a, b = self.known(i.ops[0], st), self.known(i.ops[1], st)
            if isinstance(a, tuple) or isinstance(b, tuple):
                return None
        return super().compute(i, st)

    def total(self, x, st):
        """(low, high) of the size of a string."""
        lo, hi = 0, 0
        for y in x:
            if y[0] in ('lit', 'chr'):
                a = b = len(y[1]) if y[0] == 'lit' else 1
            elif y[0] == 's':
                r = [self.num(('len', 'len', y[1], 0), s) for s in st.bit[('m', y[1])]]
                a, b = min(q[0] for q in r), max(q[1] for q in r)
            else:
                a, b = 0, BIG
            lo, hi = lo + a, hi + b
        return lo, hi

    def param(self, v):
        return v[2] if isinstance(v, tuple) and v[0] in ('pos', 'len') else v[1] if isinstance(v, tuple) and v[0] == 'ch' else None

    def load(self, i, st):
        a = self.known(i.ops[0], st)
        if isinstance(a, tuple) and a[0] == 'chp':
            return ('ch',) + a[1:]
        if isinstance(a, tuple) and a[0] == 'lit':
            return a[1]
        if isinstance(a, tuple) and a[0] == 'cp' and i['ty'] == 'i8':
            t = self.table(a[1])
            return t[a[2]] if a[2] < len(t) else None
        o = i.ops[0]
        if o[0] == 'g' and i['ty'] == 'i8':
            return self.constant(o)
        return None

    def constant(self, o):
        """Character that a variable with static storage holds: it is initialised and never written."""
        g = self.m.globals.get(o[1])
        if g is None or int(o[2]):
            return None
        for f in self.m.funcs.values():
            for i in f.all():
                for x in list(i.ops) + list(i.d.get('args', [])) + [i.d.get('base', [''])]:
                    if isinstance(x, list) and x[:2] == ['g', o[1]] and i.op != 'load' and g.get('const') is not True:
                        return None
        s = g.get('init')
        if s and len(s) == 1 and s[0][1] == 1 and s[0][2][0] == 'i':
            return int(s[0][2][2]) & 255
        return None

    def leaf(self, i, val, st):
        if i.op == 'icmp':
            a, b = self.known(i.ops[0], st), self.known(i.ops[1], st)
            ps = {self.param(x) for x in (a, b)} - {None}
            if len(ps) == 1:
                p = ps.pop()
                return self.keep(st, p, lambda s: self.test(i['pred'], a, b, s), val)
        self.imp(st, 'a condition at %s' % i.where())
        return [st]

    def keep(self, st, p, test, val):
        M = frozenset(s for s in st.bit[('m', p)] if test(s) in (None, val))
        if not M:
            return []
        st.bit[('m', p)] = M
        return [st]

    def switch_case(self, t, val, others, st):
        v = self.known(t.ops[0], st)
        p = self.param(v)
        if p is None:
            self.imp(st, 'a switch at %s' % t.where())
            return [st]
        if val is not None:
            return self.keep(st, p, lambda s: self.test('eq', v, val, s), 1)
        out = [st]
        for c in others:
            out = [y for x in out for y in self.keep(x, p, lambda s: self.test('eq', v, c, s), 0)]
        return out

    # ---- strings
    def parts(self, t, st):
        return st.obj.get(self.place(t))

    def setp(self, t, st, v):
        st.obj[self.place(t)] = v

    def litof(self, t):
        s = string_of(self.m, t)
        return None if s is None else s.decode('latin-1') if isinstance(s, bytes) else s

    def source(self, ps, k, a, v, st):
        """Pieces of an argument."""
        if 'basic_string<' in ps[k]:
            return self.parts(a, st)
        if ps[k] == 'char const*':
            s = self.litof(a)
            return None if s is None else (('lit', s),) if s else ()
        if ps[k] == 'char':
            if isinstance(v, int):
                return (('lit', chr(v & 255)),)
            if isinstance(v, tuple) and v[0] == 'ch':
                return (('chr', v[1], v[2]),)
        return None

    def split_empty(self, st, x, i, one, zero):
        if x is None:
            self.imp(st, 'a string that is not followed')
            return [st]
        if x == () or any(y[0] in ('lit', 'chr') for y in x):
            st.env[i.id] = one if x == () else zero
            return [st]
        if len(x) == 1 and x[0][0] == 's':
            out = []
            for e, v in ((1, one), (0, zero)):
                for s in self.keep(st.copy(), x[0][1], lambda q: q.e, e):
                    s.env[i.id] = v
                    out.append(s)
            return out
        self.imp(st, 'whether a part is empty')
        return [st]

    def split_equal(self, st, x, y, i, one, zero):
        """Whether a string is the literal y."""
        if y == '' and x is not None:
            return self.split_empty(st, x, i, one, zero)
        if x is not None and y is not None and all(z[0] == 'lit' for z in x):
            st.env[i.id] = one if ''.join(z[1] for z in x) == y else zero
            return [st]
        if x is None or len(x) != 1 or x[0][0] != 's' or '\0' in y:
            self.imp(st, 'a comparison at %s' % i.where())
            return [st]
        p, out = x[0][1], []
        is_, not_ = st.bit.get(('is', p)), st.bit.get(('not', p), frozenset())
        q = shape_of(y)
        if is_ is None and y not in not_ and q in st.bit[('m', p)]:
            t = st.copy()
            t.bit[('m', p)] = frozenset([q])
            t.bit[('is', p)] = y
            t.env[i.id] = one
            out.append(t)
        if is_ is not None:
            st.env[i.id] = one if is_ == y else zero
            return [st]
        t = st.copy()
        # other strings have the same shape, unless it is that of a single character that is a class of its own
        if q.one and q.first != 'x':
            t.bit[('m', p)] = t.bit[('m', p)] - {q}
        t.bit[('not', p)] = not_ | {y}
        t.env[i.id] = zero
        if t.bit[('m', p)]:
            out.append(t)
        return out

    def character(self, i, st, x, idx):
        """Pointer to a character of a string."""
        where = i.where()
        if not x:
            if x is None:
                self.imp(st, 'a string that is not followed')
            return None
        if idx == 'last':
            y = x[-1]
            if y[0] == 'lit':
                return ('lit', ord(y[1][-1]))
            if y[0] == 's':
                if len(x) == 1 or not any(s.e for s in st.bit[('m', y[1])]):
                    bad = [s for s in st.bit[('m', y[1])] if s.e]
                    self.note('T12:defined', 'last character', 'violation' if bad else 'ok', st, 'the last character of an empty string is used',
                              where)
                    return ('chp', y[1], 'last')
            return None
        y = x[0]
        if idx == 0 and y[0] == 'lit':
            return ('lit', ord(y[1][0]))
        if idx == 0 and y[0] == 's' and len(x) == 1:
            return ('chp', y[1], 'first')
        if len(x) == 1 and y[0] == 's' and isinstance(idx, tuple) and idx[2] == y[1]:
            if idx[0] == 'len' and idx[3] == -1:
                bad = [s for s in st.bit[('m', y[1])] if s.e]
                self.note('T12:defined', 'last character', 'violation' if bad else 'ok', st, 'the last character of an empty string is used', where)
                return ('chp', y[1], 'last')
            if idx[0] == 'pos' and idx[3] == 0:
                bad = [s for s in st.bit[('m', y[1])] if s.pos == 'npos']
                self.note('T12:defined', 'character', 'violation' if bad else 'ok', st, 'a character far past the end is used', where)
                return ('chp', y[1], 'pos')
        return None

    def piece(self, i, st, x, f, n):
        """Part of a string from position f on with at most n characters."""
        if x is None or f is None or n is None:
            return None
        if f == 0 and n == NPOS:
            return x
        if len(x) == 1 and x[0][0] == 's':
            p = x[0][1]
            for v in (f, n):
                if isinstance(v, tuple) and self.param(v) != p:
                    return None
            for s in st.bit[('m', p)]:
                t = self.test('ult', ('len', 'len', p, 0), f, s)
                if t == 1:
                    self.note('T12:defined', 'position', 'violation', st, 'a part is taken from past the end of %s' % s, i.where())
                    return None
            self.note('T12:defined', 'position', 'ok', st)
            return (('sub', p, f, n),)
        if x == () and f == 0:
            return ()
        return None

    def call(self, i, st):
        c, n, p = self.q(i)
        d = i['dem']
        a = self.args(i)
        v = [self.known(o, st) for o in i['args']]
        ps = split_params(p)
        if basestr(c):
            if n == 'basic_string':
                if not ps or ps[0].startswith('std::allocator'):
                    x = ()
                elif ps[0] == 'unsigned long' and len(ps) >= 2 and isinstance(v[1], int) and isinstance(v[2], int) and v[1] < 16:
                    x = (('lit', chr(v[2] & 255)*v[1]),) if v[1] else ()
                elif 'basic_string<' in ps[0] and len(ps) >= 2 and ps[1] == 'unsigned long':
                    x = self.piece(i, st, self.parts(a[1], st), v[2], v[3] if len(ps) > 2 and ps[2] == 'unsigned long' else NPOS)
                elif len(ps) == 1 or ps[1].startswith('std::allocator'):
                    x = self.source(ps, 0, a[1], v[1], st)
                else:
                    x = None
                self.setp(a[0], st, x)
            elif n.startswith('~'):
                pass
            elif n == 'empty':
                return self.split_empty(st, self.parts(a[0], st), i, 1, 0)
            elif n in ('size', 'length'):
                x = self.parts(a[0], st)
                if x is not None and len(x) == 1 and x[0][0] == 's':
                    st.env[i.id] = ('len', 'len', x[0][1], 0)
                elif x is not None and all(y[0] == 'lit' for y in x):
                    st.env[i.id] = sum(len(y[1]) for y in x)
                elif x is not None:
                    st.env[i.id] = ('tot', x)
                else:
                    self.imp(st, 'the size of a string that is not followed')
            elif n in ('operator[]', 'at', 'front', 'back'):
                x = self.parts(a[0], st)
                idx = 'last' if n == 'back' else 0 if n == 'front' else v[1]
                if n in ('at', 'front') and x is not None and len(x) == 1 and x[0][0] == 's' and idx == 0:
                    bad = [s for s in st.bit[('m', x[0][1])] if s.e]
                    self.note('T12:defined', 'first character', 'violation' if bad else 'ok', st,
                              'the first character of an empty string is used', i.where())
                r = self.character(i, st, x, idx)
                if r is None:
                    self.imp(st, 'a character at %s' % i.where())
                else:
                    st.env[i.id] = r
            elif n in ('find_last_of', 'rfind', 'find_first_of', 'find'):
                x = self.parts(a[0], st)
                kind = 'last' if n in ('find_last_of', 'rfind') else 'first'
                s = chr(v[1] & 255) if ps[0] == 'char' and isinstance(v[1], int) else self.litof(a[1]) if ps[0] == 'char const*' else None
                from_ = v[2] if len(v) > 2 else None
                if s == '/' and len(ps) == 2 and from_ == (NPOS if kind == 'last' else 0) and x is not None and len(x) == 1 and x[0][0] == 's':
                    st.env[i.id] = ('pos', kind, x[0][1], 0)
                else:
                    self.imp(st, 'a search at %s' % i.where())
            elif n == 'compare' and ps == ['char const*']:
                return self.split_equal(st, self.parts(a[0], st), self.litof(a[1]), i, 0, 'nz')
            elif n == 'substr':
                x = self.piece(i, st, self.parts(a[1], st), v[2], v[3] if len(v) > 3 else NPOS)
                self.setp(a[0], st, x)
            elif n in ('operator=', 'assign') and len(ps) == 1:
                self.setp(a[0], st, self.source(ps, 0, a[1], v[1], st))
            elif n == 'assign' and len(ps) == 3 and 'basic_string<' in ps[0]:
                self.setp(a[0], st, self.piece(i, st, self.parts(a[1], st), v[2], v[3]))
            elif n in ('operator+=', 'append', 'push_back') and len(ps) == 1:
                x, y = self.parts(a[0], st), self.source(ps, 0, a[1], v[1], st)
                self.setp(a[0], st, None if x is None or y is None else x + y)
            elif n == 'append' and len(ps) == 2 and ps == ['unsigned long', 'char'] and isinstance(v[1], int) and isinstance(v[2], int):
                x = self.parts(a[0], st)
                self.setp(a[0], st, None if x is None else x + ((('lit', chr(v[2] & 255)*v[1]),) if v[1] else ()))
            elif n == 'append' and len(ps) == 3 and 'basic_string<' in ps[0]:
                x, y = self.parts(a[0], st), self.piece(i, st, self.parts(a[1], st), v[2], v[3])
                self.setp(a[0], st, None if x is None or y is None else x + y)
            elif n == 'pop_back':
                x = self.parts(a[0], st)
                if x and x[-1][0] == 'chr':
                    x = x[:-1]
                elif x and x[-1][0] == 'lit':
                    x = x[:-1] + ((('lit', x[-1][1][:-1]),) if len(x[-1][1]) > 1 else ())
                elif x and x[-1][0] == 's' and not any(s.e for s in st.bit[('m', x[-1][1])]):
                    x = x[:-1] + (('sub', x[-1][1], 0, ('len', 'len', x[-1][1], -1)),)
                else:
                    if x == () or x and len(x) == 1 and x[0][0] == 's':
                        self.note('T12:defined', 'last character', 'violation', st, 'the last character of an empty string is removed', i.where())
                    x = None
                self.setp(a[0], st, x)
            elif n == 'clear':
                self.setp(a[0], st, ())
            elif n == 'erase' and len(ps) == 2 and ps[0] == 'unsigned long' and v[2] == NPOS or n == 'resize' and len(ps) == 1:
                self.setp(a[0], st, self.piece(i, st, self.parts(a[0], st), 0, v[1]))
            elif n == 'swap':
                x, y = self.parts(a[0], st), self.parts(a[1], st)
                self.setp(a[0], st, y)
                self.setp(a[1], st, x)
            elif n in ('reserve', 'c_str', 'data', 'capacity', 'shrink_to_fit', 'begin', 'end', 'get_allocator') or d.endswith(' const'):
                pass
            else:
                self.setp(a[0], st, None)
            return [st]
        if n == 'operator+' and 'basic_string<' in d and len(ps) == 2 and len(a) == 3:
            x, y = self.source(ps, 0, a[1], v[1], st), self.source(ps, 1, a[2], v[2], st)
            self.setp(a[0], st, None if x is None or y is None else x + y)
            return [st]
        if re.search(r'std::operator[=!]=<char', d) and len(a) == 2:
            eq = 'operator==' in d
            for k in (0, 1):
                x, y = self.parts(a[k], st) if 'basic_string<' in ps[k] else None, self.litof(a[1 - k])
                if x is not None and y is not None:
                    return self.split_equal(st, x, y, i, int(eq), int(not eq))
            self.imp(st, 'a comparison at %s' % i.where())
            return [st]
        if n in ('strchr', 'memchr', '__builtin_strchr') and len(v) >= 2:
            t = self.table(v[0][1]) if isinstance(v[0], tuple) and v[0][0] == 'cp' else None
            if t is not None:
                t = t[v[0][2]:]
                t = t[:t.index(0) + 1] if n != 'memchr' and 0 in t else t[:v[2]] if n == 'memchr' and isinstance(v[2], int) else None
            if t is not None and isinstance(v[1], int):
                st.env[i.id] = 'nz' if v[1] & 255 in t else 0
                return [st]
            p = self.param(v[1])
            if t is not None and p is not None and v[1][0] == 'ch':
                out = []
                for w, k in (('nz', 1), (0, 0)):
                    for s in self.keep(st.copy(), p, lambda q: any(self.test('eq', v[1], x, q) for x in t), k):
                        s.env[i.id] = w
                        out.append(s)
                return out
        if c.startswith(('std::allocator', 'std::__new_allocator')) or d.startswith('llvm.') or n in ('move', 'forward', '__addressof'):
            if n in ('move', 'forward', '__addressof') and v:
                st.env[i.id] = v[0]
            return [st]
        for x in a:
            if self.local(self.place(x)):
                st.obj.pop(self.place(x), None)
        self.imp(st, 'the function %s' % d[:50])
        return [st]

    # ---- results
    def finish(self, t, st):
        if t.ops:
            k = self.known(t.ops[0], st)
            if k in (0, 1):
                return self.results.append((k, st, t.where()))
            for v in (0, 1):
                for s in self.assume(t.ops[0], v, st.copy()):
                    self.results.append((v, s, t.where()))
        else:
            self.results.append((st.obj.get((('arg', 0), 0)), st, t.where()))

    def form(self, x, sh):
        """Pieces in normal form for the shapes."""
        out = []
        for y in x:
            if y[0] == 'lit':
                z = y
            elif y[0] == 's':
                s = sh[y[1]]
                z = None if s.e else ('lit', '/') if s.one and s.first == SEP else y
            elif y[0] == 'chr':
                c = {'first': sh[y[1]].first, 'last': sh[y[1]].last, 'pos': SEP}[y[2]]
                z = ('lit', chr(c)) if isinstance(c, int) else y
            else:
                p = y[1]
                s = sh[p]
                f, n = self.num(y[2], s), self.num(y[3], s)
                f, n = (y2[0] if y2[0] == y2[1] else y1 for y1, y2 in ((y[2], f), (y[3], n)))
                if isinstance(f, tuple) and f[0] == 'pos' and f[1] == 'last' and f[3] == 1:
                    f = 'after'
                if isinstance(n, tuple) and n[0] == 'pos' and n[1] == 'last' and n[3] == 0:
                    n = 'before'
                if f == 1 and s.pos == 0:
                    f = 'after'
                big = isinstance(n, int) and n >= BIG or isinstance(n, tuple) and n[0] == 'len' and n[3] >= 0
                if s.e or n == 0 or f == 'after' and s.atend or f == 1 and s.one:
                    z = None
                elif f == 0 and (big or s.one):
                    z = ('lit', '/') if s.one and s.first == SEP else ('s', p)
                elif f == 0 and n == 1 and isinstance(s.first, int):
                    z = ('lit', chr(s.first))
                elif f == 'after' and big:
                    z = ('after', p)
                elif f == 0 and n == 'before':
                    z = ('before', p)
                else:
                    z = ('sub', p, f, n)
            if z is None:
                continue
            if out and out[-1][0] == z[0] == 'lit':
                z = ('lit', out.pop()[1] + z[1])
            out.append(z)
        return tuple(out)


def spec(name, sh):
    p = ('s', 'path')
    if name == 'isAbsolute':
        return int(sh['path'].first == SEP)
    if name == 'getFileName':
        return () if sh['path'].atend or sh['path'].e else (p,) if sh['path'].pos == 'npos' else (('after', 'path'),)
    if name == 'getParentDirectory':
        return {'npos': (), 0: (('lit', '/'),), 'mid': (('before', 'path'),)}[sh['path'].pos]
    l, r = sh['left'], sh['right']
    s = lambda x: () if sh[x].e else (('lit', '/'),) if sh[x].one and sh[x].first == SEP else (('s', x),)
    if l.e or r.first == SEP:
        return s('right')
    if r.e:
        return s('left')
    return s('left') + ((('lit', '/'),) if l.last != SEP else ()) + s('right')


def merged(x):
    out = []
    for z in x:
        if out and out[-1][0] == z[0] == 'lit':
            z = ('lit', out.pop()[1] + z[1])
        out.append(z)
    return tuple(out)


NAMES = {'join': ('left', 'right'), 'isAbsolute': ('path',), 'getFileName': ('path',), 'getParentDirectory': ('path',)}


def t12(ws, r):
    raw = Module(ws.ir(tool_srcs(ws), **sc.RAW))
    dem = {}
    for n in NAMES:
        for f in raw.funcs.values():
            if re.match(r'path::%s(\[abi:\w+\])?\(' % n, f.dem or ''):
                dem[n] = f.dem
    miss = [n for n in NAMES if n not in dem]
    for n in miss:
        r.und('result', n, 'function not found')
    m = tmodule(ws, [('s|' + n, d) for n, d in dem.items()], keep=['^std::'])
    for n in dem:
        X = PathFlow(ws, m, 's|' + n, NAMES[n])
        X.run(X.start())
        r.count('functions')
        r.count('abstract states of blocks', X.steps)
        ps = NAMES[n]
        seen = {}
        for got, st, where in X.results:
            imp = st.bit.get('imp')
            for ms in product(*[sorted(st.bit[('m', p)], key=str) for p in ps]):
                sh = dict(zip(ps, ms))
                r.count('shapes of arguments')
                want = spec(n, sh)
                text = 'for ' + ' and '.join(map(str, ms))
                if got is None:
                    s, d = 'undecided', 'the result is not followed %s' % text
                elif n == 'isAbsolute':
                    s, d = ('ok', '') if got == want else ('violation', 'the result is %s %s' % (bool(got), text))
                else:
                    have = X.form(got, sh)
                    want = merged(want)
                    if have == want:
                        s, d = 'ok', ''
                    else:
                        args = [x[1] for x in have if x[0] != 'lit']
                        show_ = lambda x: ' + '.join("'%s'" % y[1] if y[0] == 'lit' else y[1] if y[0] == 's' else '%s of %s' % (y[0], y[1])
                                                     for y in x) or "''"
                        s, d = 'violation' if len(set(args)) == len(args) else 'undecided', 'the result is %s, not %s, %s' % (
                            show_(have), show_(want), text)
                if imp and s == 'violation':
                    s, d = 'undecided', d + ' (depends on %s)' % imp
                kind = {'join': lambda: 'path is absolute' if sh['right'].first == SEP else 'empty' if sh['left'].e or sh['right'].e else
                        'with separator' if sh['left'].last == SEP else 'without separator',
                        'isAbsolute': lambda: 'empty' if sh['path'].e else 'first character'}.get(
                            n, lambda: {'npos': 'no separator', 0: 'root', 'mid': 'separator'}[sh['path'].pos])()
                k = (n, kind)
                if k not in seen or WORSE[s] > WORSE[seen[k][0]]:
                    seen[k] = (s, d, where)
        for (f, kind), (s, d, where) in sorted(seen.items()):
            r.put(s, 'result', '%s: %s' % (f, kind), d, where)
        for (rule, inst), (s, d, where) in sorted(X.found.items()):
            if rule.startswith('T12:'):
                r.put(s, rule[4:], '%s: %s' % (n, inst), d if s != 'ok' else '', where)
    r.need('result', 12)
    r.need('defined', 3)
