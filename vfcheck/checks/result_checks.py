"""T06, T07: what the result file says.

resultFile is interpreted with everything of the tool that it calls inlined.  The JSON values that it builds are followed as
trees: arrays hold what each iteration of a loop adds, leaves are terms over the arguments.  The tree that is written is
compared with what the arguments say, member by member."""
from ..ir import Module
from .main_checks import *
from .main_checks import t06 as t06_main, t07 as t07_main
from .path_checks import PathFlow

Val = namedtuple('Val', 'kind segs')               # JSON values: 'null', 'obj', 'arr', 'num', 'str', 'bool', 'unk'
NULL, UNKV = Val('null', ()), Val('unk', ())
ARGS = ('vertexFormat', 'bounds', 'vertexData', 'vertexCount', 'indexType', 'indexData')
KINDS = {'null': 'null', 'obj': 'an object', 'arr': 'an array', 'num': 'a number', 'str': 'text', 'bool': 'a truth value'}
NUMT = {'int', 'unsigned int', 'long', 'unsigned long', 'double', 'float', 'long long', 'unsigned long long', 'short', 'unsigned short',
        'unsigned char', 'signed char', 'char'}


def parts_of(v):
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, frozenset)) and x not in seen:
            seen.add(x)
            todo += x
    return seen


class ResultFlow(PathFlow):
    limit = 60000

    def __init__(self, ws, m, name):
        super().__init__(ws, m, name, ())

    def start(self):
        st = St()
        st.bit['it'] = frozenset((0, 1, 2))
        return st

    def across(self, u, v, st):
        out = Flow.across(self, u, v, st)
        for s in out:
            if v not in self._later:
                self._later[v] = self.later(v)
            for k in [k for k in s.obj if k[0][0] == 'alloca' and k[0][1] not in self._later[v]]:
                del s.obj[k]
        return out

    def local(self, p):
        return p[0] != 't' and (p[0][0] == 'alloca' or p[0] == ('arg', 0))

    # ---- values
    def known(self, o, st):
        if o[0] == 'g':
            return ('g', o[1], int(o[2]))
        return Flow.known(self, o, st)

    def compute(self, i, st):
        if i.op == 'icmp':
            a, b = self.known(i.ops[0], st), self.known(i.ops[1], st)
            if isinstance(a, tuple) or isinstance(b, tuple):
                if 0 in (a, b) and i['pred'] in ('eq', 'ne'):
                    return int(i['pred'] == 'ne')
                return None
            for x, y in ((0, 1), (1, 0)):
                c = self.known(i.ops[y], st)
                if isinstance(c, int) and self.is_type(i.ops[x], i):
                    r = {self.cmpi(i['pred'], t, c) if x == 0 else self.cmpi(i['pred'], c, t) for t in st.bit['it']}
                    return r.pop() if len(r) == 1 else None
        if i.op in ('add', 'sub'):
            a, b = self.known(i.ops[0], st), self.known(i.ops[1], st)
            w = width(i['ty'] or '') or 64
            return (a + b if i.op == 'add' else a - b) & ((1 << w) - 1) if isinstance(a, int) and isinstance(b, int) and \
                self.g.loop_of[i.bb] is None else None
        return Flow.compute(self, i, st)

    def cmpi(self, p, a, b):
        p = p.replace('s', 'u') if p[0] == 's' else p
        return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ugt': a > b, 'ule': a <= b, 'uge': a >= b}[p])

    def is_type(self, o, i):
        a = atom_of(self.term(o, i)) if o[0] == 'v' else None
        if a is not None and a[0] in ('zext', 'sext') and len(a) > 1:
            a = atom_of(a[1]) if isinstance(a[1], tuple) else a
        return a == ('arg', 5)

    def load(self, i, st):
        return None

    def memo(self, k, val, st):
        """A condition over the arguments holds or not, for the whole run or the iteration."""
        o = st.bit.get(('c', k))
        if o is not None:
            return [st] if o == val else []
        st.bit[('c', k)] = val
        return [st]

    def free(self, t):
        """The term depends on single elements of the arguments and not only on their number."""
        d = self.describe(t)
        return d is not None and d[0] in ('mem', 'text', 'size', 'num') and 'at' in str(d)

    def leaf(self, i, val, st):
        if i.op == 'icmp':
            a, b = self.term(i.ops[0], i), self.term(i.ops[1], i)
            for x, y in ((0, 1), (1, 0)):
                c = self.known(i.ops[y], st)
                if isinstance(c, int) and self.is_type(i.ops[x], i):
                    k = frozenset(t for t in st.bit['it'] if (self.cmpi(i['pred'], t, c) if x == 0 else self.cmpi(i['pred'], c, t)) == val)
                    if not k:
                        return []
                    st.bit['it'] = k
                    return [st]
            l = self.g.loop_of[i.bb]
            if l is not None and l.trip_edge and l.trip is not None and l.trip_edge[0] == i.bb and self.fn.term(i.bb).ops[:1] == [['v', i.id]]:
                return [st]
            x, c = atom_of(a), pconst(b) if b[0] == 'p' else None
            if x is not None and x[0] == 'iv' and c is not None and c < 1 << 16:
                first = st.bit.get(('first', x[1]))
                t = {('eq', 0): 1, ('ne', 0): 0, ('ugt', 0): 0, ('ult', 1): 1}.get((i['pred'], c))
                if t is not None and first is not None:
                    return [st] if (t == first) == bool(val) else []
                loops = {l.id: l for l in self.g.loops}
                n = self.times(loops[x[1]]) if x[1] in loops else None
                if n is None and x[1] in loops and (self.over(loops[x[1]]) is not None or self.unbounded(loops[x[1]])) or \
                        n is not None and c < n:
                    return self.memo((i['pred'], a, b), val, st)
            y = [z for z in (x, atom_of(b)) if z is not None and z[0] == 'iv' and l is not None and z[1] == l.id]
            if y and l.trip is None and self.unbounded(l):
                return self.memo((i['pred'], a, b), val, st)
            n = self.count_of(a, b, i['pred'])
            if n is not None:
                return self.memo(('empty', n[0]), int(n[1] == val), st)
            if self.free(a) and (self.free(b) or b[0] == 'p' and pconst(b) is not None):
                return self.memo((i['pred'], a, b), val, st)
        if i.op in ('call', 'invoke') and self.q(i)[1] == 'empty':
            t = self.args(i)[0]
            r = self.resolve(t)
            if r == ('arg', 'indexData'):
                return self.memo(('empty', t), val, st)
            if r is not None and r[0] == 'at':
                return self.memo(('empty', t), val, st)
            if r is not None and not val:
                return [st]
        if i.op == 'fcmp':
            a, b = self.term(i.ops[0], i), self.term(i.ops[1], i)
            d = [self.describe(x) for x in (a, b)]
            if any(x is not None and 'at' in str(x) for x in d):
                return self.memo((i['pred'], a, b), val, st)
        self.imp(st, 'a condition at %s' % i.where())
        return [st]

    def unbounded(self, l):
        """The loop ends at the number of elements of an argument or at a constant."""
        sized = False
        B = self.B
        for bb in l.blocks:
            for o in self.fn.term(bb).ops[1:]:
                if o[0] != 'bb' or o[1] in l.blocks:
                    continue
                for v in B.support(self.g.edge_local(bb, o[1])):
                    todo, iv = [B.atoms[v]], False
                    while todo:
                        x = todo.pop()
                        if not isinstance(x, tuple) or not x:
                            continue
                        if x[0] in ('ld', 'ldv', 'call', 'iv', 'phi', 'hphi', 'bphi', 'undef', 'opq', 'exitv', 'ev', 'b', 'ite', 'f', 'kx', 'ex'):
                            d = self.describe(x)
                            if x == ('iv', l.id):
                                iv = True
                            elif d is not None and d[0] == 'size':
                                sized = True
                            else:
                                return False
                        else:
                            todo += [y for y in x if isinstance(y, tuple)]
                    if not iv:
                        return False
        return sized

    def count_of(self, a, b, p):
        """(container, truth of the comparison when it is empty) for a comparison of its size with zero."""
        x = atom_of(a)
        if x is None or x[0] != 'call' or qualified(x[1])[1] not in ('size', 'length') or b[0] != 'p':
            return None
        c = pconst(b)
        t = {('eq', 0): 1, ('ne', 0): 0, ('ugt', 0): 0, ('ult', 1): 1, ('uge', 1): 0, ('ule', 0): 1}.get((p, c))
        if t is None or self.resolve(x[2][0]) is None:
            return None
        return x[2][0], t

    def switch_case(self, t, val, others, st):
        if self.is_type(t.ops[0], t):
            k = frozenset(x for x in st.bit['it'] if (x == val if val is not None else x not in others))
            if not k:
                return []
            st.bit['it'] = k
            return [st]
        self.imp(st, 'a switch at %s' % t.where())
        return [st]

    # ---- loops
    def times(self, l):
        if l is None or l.trip is None:
            return None
        return pconst(l.trip) if l.trip[0] == 'p' else None

    def enter(self, l, st):
        for p, v in list(st.obj.items()):
            if isinstance(v, Val) and v.kind in ('obj', 'arr'):
                st.obj[p] = v._replace(segs=v.segs + (('open', l.id, frozenset(), ()),))
        st.bit[('first', l.id)] = 1

    def mine(self, v, l):
        """(what came before a loop, patterns of its iterations, what the current one added) for a value, None if it is newer."""
        for k, s in enumerate(v.segs):
            if s[0] == 'open' and s[1] == l.id:
                return v.segs[:k], s[2], s[3] + v.segs[k + 1:]
        return None

    def repeat(self, l, u, st):
        st.bit[('first', l.id)] = 0
        for p, v in list(st.obj.items()):
            x = self.mine(v, l) if isinstance(v, Val) else None
            if x is not None:
                st.obj[p] = v._replace(segs=x[0] + (('open', l.id, x[1] | {x[2]}, ()),))
        for k in [k for k in st.bit if isinstance(k, tuple) and k[0] == 'c' and ('iv', l.id) in set(subterms(k))]:
            del st.bit[k]

    def leave(self, l, edge, st):
        early = edge != l.trip_edge
        st.bit.pop(('first', l.id), None)
        for p, v in list(st.obj.items()):
            x = self.mine(v, l) if isinstance(v, Val) else None
            if x is None:
                continue
            before, pats, cur = x
            if early:
                out = (('early', l.id, pats, cur),)
            elif not pats:
                if self.times(l):
                    return self.drop(st)
                out = (('none', l.id),) if v.kind == 'arr' else ()
            else:
                out = (('loop', l.id, pats),) if pats != {()} else ()
            st.obj[p] = v._replace(segs=before + out)

    def drop(self, st):
        """The state cannot occur: a loop that runs a fixed number of times was skipped."""
        st.bit['dead'] = 1

    def edges(self, b, st):
        return [(v, s) for v, s in super().edges(b, st) if not s.bit.get('dead')]

    # ---- what terms stand for
    def resolve(self, t):
        """Container at an address."""
        a = patom(t) if t[0] == 'p' else None
        if a is not None and a[0] == 'arg' and 1 <= a[1] <= 6:
            return ('arg', ARGS[a[1] - 1])
        e = self.element(t)
        if e is not None and e[2] == 0:
            c = self.resolve(e[0])
            return None if c is None else ('at', c, self.index(e[1]))
        return None

    def element(self, t):
        e = super().element(t)
        if e is None and t[0] == 'p':
            for k, c in t[2]:
                if len(k) == 1 and k[0][0] == 'call' and c == 1 and qualified(k[0][1])[1] in ('front', 'back') and k[0][2]:
                    rest = sconst(padd(t, A(64, k[0]), -1))
                    if rest is not None:
                        return k[0][2][0], K(64, 0) if qualified(k[0][1])[1] == 'front' else ('last',), rest
        return e

    def index(self, t):
        if t == ('last',):
            return t
        a = atom_of(t)
        if a is not None and a[0] == 'iv':
            return ('iv', a[1])
        if t[0] == 'p' and pconst(t) is not None:
            return pconst(t)
        return ('expr', t)

    def where_of(self, t):
        """(element, offset) of an address."""
        e = self.element(t)
        if e is None:
            return None
        c = self.resolve(e[0])
        return None if c is None else (('at', c, self.index(e[1])), e[2])

    def describe(self, t):
        """What a term over the arguments stands for, None if it is not known."""
        if not isinstance(t, tuple):
            return None
        if t[0] == 'f' and len(t[1]) == 1 and t[1][0][1] == 1:
            a = t[1][0][0]
            a = a[0] if len(a) == 1 and isinstance(a[0], tuple) else a
        elif t[0] == 'p':
            if pconst(t) is not None:
                return ('const', pconst(t))
            a = patom(t)
        else:
            a = t
        if a is None or not isinstance(a, tuple):
            return None
        if a[0] == 'ld':
            w = self.where_of(a[2])
            if w is None:
                # component of a value
                return None
            return ('mem', w[0], w[1], a[1])
        if a[0] == 'arg' and 1 <= a[1] <= 6:
            return ('val', ARGS[a[1] - 1])
        if a[0] == 'call':
            n = qualified(a[1])[1]
            if n == 'operator[]' and 'vfc::VertexValue' in a[1]:
                w, k = self.where_of(a[2][0]), self.index(a[2][1])
                return None if w is None else ('comp', w[0], w[1], k)
            if n in ('stride', 'size', 'length'):
                r = self.resolve(a[2][0])
                return None if r is None else (n if n == 'stride' else 'size', r)
            if n in ('c_str', 'data'):
                w = self.where_of(a[2][0])
                if w is None:
                    return None
                return ('text', w[0], w[1])
            if n in ('elementLayoutName', 'elementTypeName'):
                d = self.describe(a[2][0])
                if d is None:
                    return None
                f = a[2][1] if len(a[2]) > 1 else ('b', 0)
                return (n, d) if f in (('b', 0), ('p', 1, ())) or f[0] == 'p' and pconst(f) == 0 else (n, d, 'with padding')
        if a[0] in ('zext', 'sext', 'fpext', 'fptrunc', 'uitofp', 'sitofp', 'trunc'):
            ds = [self.describe(x) for x in a[1:] if isinstance(x, tuple)]
            if len(ds) == 1 and ds[0] is not None:
                return ds[0] if a[0] in ('zext', 'fpext') else ('num', a[0], ds[0])
        return None

    # ---- text
    def ref(self, o, i, st):
        """Text that a pointer points at."""
        k = self.known(o, st)
        if isinstance(k, tuple) and k[0] == 'g':
            s = self.m.string(['g', k[1], k[2]])
            if s is not None:
                return ('lit', s.decode('latin-1') if isinstance(s, bytes) else s)
        t = self.term(o, i)
        s = string_of(self.m, t)
        if s is not None:
            return ('lit', s.decode('latin-1') if isinstance(s, bytes) else s)
        a = atom_of(t)
        if a is not None and a[0] == 'call' and IS_CSTR(a[1]):
            p = self.place(a[2][0])
            if self.local(p):
                return ('local', p, st.obj.get(p))
        if t[0] == 'p':
            r, off = root_off(t)
            b = patom(r)
            if b is not None and b[0] == 'alloca':
                return ('local', (b, 0), None)
            # memory of a local container
            for x in subterms(t):
                if isinstance(x, tuple) and x and x[0] == 'call' and len(x) > 2 and qualified(x[1])[1] in ('c_str', 'data', 'operator[]', 'at',
                                                                                                          'back', 'front', 'begin'):
                    p = self.place(x[2][0]) if x[2] else ('t',)
                    if self.local(p):
                        return ('local', p, None)
        d = self.describe(t)
        if d is not None:
            return ('term', d)
        return ('?', None)

    def copied(self, x):
        """Text that is copied into the document does not depend on its source any more."""
        return x[2] if x[0] == 'local' else x

    def text_of(self, x, sized=None):
        return Val('str', (x,))

    # ---- calls
    def modify(self, p, st, i):
        """A local object is changed or destroyed: text in it is not where it was."""
        if ('lent', p) in st.bit and ('gone', p) not in st.bit:
            st.bit[('gone', p)] = i.where()

    def lend(self, v, st):
        if v.kind == 'str' and v.segs[0][0] == 'local':
            st.bit[('lent', v.segs[0][1])] = 1
        return v

    def value(self, p, st):
        v = st.obj.get(p)
        return v if isinstance(v, Val) else UNKV

    def take(self, p, st):
        v = self.value(p, st)
        if self.local(p):
            st.obj[p] = NULL
        return v

    def scalar(self, ty, o, i, st):
        ty = ty.replace('const&', '').replace(' const', '').strip('& ')
        if ty in NUMT:
            k = self.known(o, st)
            return Val('num', (ty, self.term(o, i)))
        if ty == 'bool':
            return Val('bool', ())
        return None

    def operand(self, ty, o, i, st, copied=False):
        """JSON value that an argument of a function stands for."""
        if 'GenericStringRef' in ty:
            v = st.obj.get(self.place(self.term(o, i)))
            return v if isinstance(v, Val) else UNKV
        if 'GenericValue' in ty or 'GenericDocument' in ty:
            return self.take(self.place(self.term(o, i)), st)
        if ty.startswith('char const*'):
            v = Val('str', (self.ref(o, i, st),))
            return v if copied else self.lend(v, st)
        if 'basic_string' in ty:
            return Val('str', (self.copied(self.string_at(self.term(o, i), st)),))
        v = self.scalar(ty, o, i, st)
        return UNKV if v is None else v

    def string_at(self, t, st):
        """Text in the string object at an address."""
        p = self.place(t)
        if self.local(p):
            return ('local', p, st.obj.get(p))
        w = self.where_of(t)
        return ('term', ('text', w[0], w[1])) if w is not None else ('?', None)

    def add(self, p, item, st, i, kind):
        v = self.value(p, st)
        if v.kind == 'unk':
            self.imp(st, 'a value that is not followed')
            return
        if v.kind != kind:
            self.note('R:value', '%s at %s' % ('AddMember' if kind == 'obj' else 'PushBack', i.where()), 'violation', st,
                      '%s is used as %s' % (KINDS.get(v.kind), KINDS[kind]), i.where())
            return
        segs = v.segs
        l = self.g.loop_of[i.bb]
        opened = [k for k, s in enumerate(segs) if s[0] == 'open']
        if opened:
            k = opened[-1]
            s = segs[k]
            if len(s[3]) > 12:
                self.imp(st, 'a long array')
                return
            # what follows belongs to the innermost loop
            segs = segs[:k] + (('open', s[1], s[2], s[3] + segs[k + 1:] + (item,)),)
        else:
            segs = segs + (item,)
        st.obj[p] = v._replace(segs=segs)

    def call(self, i, st):
        c, n, ps0 = self.q(i)
        d = i['dem']
        a = self.args(i)
        ps = split_params(ps0)
        if n == 'StringRef' and c == 'rapidjson' or 'GenericStringRef<' in c and n == 'GenericStringRef':
            src = i['args'][1] if len(i['args']) > 1 else None
            if src is None:
                return [st]
            if ps and 'GenericStringRef' in ps[0]:
                v = st.obj.get(self.place(a[1]), UNKV)
            elif ps and 'basic_string' in ps[0]:
                v = Val('str', (self.string_at(a[1], st),))
            else:
                v = Val('str', (self.ref(src, i, st),))
                if len(ps) > 1 and ps[1].startswith('unsigned'):
                    v = self.sized(v, a[2])
            self.setp(a[0], st, self.lend(v, st))
            return [st]
        if 'rapidjson::Generic' in c and ('GenericValue<' in c or 'GenericDocument<' in c) and 'rapidjson' == c.split('::')[0]:
            return self.json(i, st, a, c, n, ps)
        if 'Writer<' in c:
            return self.writer(i, st, a, n, ps)
        if 'StringBuffer<' in c:
            p = self.place(a[0]) if a else None
            if n == 'GenericStringBuffer':
                st.obj[p] = ('buffer', ())
            elif n == 'Clear':
                st.obj[p] = ('buffer', ())
            elif n not in ('GetString', 'GetSize', 'GetLength', 'Reserve', 'ShrinkToFit') and not n.startswith('~'):
                st.obj.pop(p, None)
            return [st]
        if basestr(c):
            return self.stdstring(i, st, a, n, ps)
        if n == 'operator+' and 'basic_string<' in d:
            self.setp(a[0], st, None)
            return [st]
        if d.startswith('llvm.') or c.startswith(('std::allocator', 'std::__new_allocator', 'std::initializer_list')):
            if d.startswith('llvm.mem'):
                for x in a[:1]:
                    if self.local(self.place(x)):
                        st.obj.pop(self.place(x), None)
            return [st]
        if n in ('move', 'forward', '__addressof', 'addressof'):
            return [st]
        if n in ('elementLayoutName', 'elementTypeName', 'stride', 'size', 'length', 'empty', 'operator[]', 'at', 'begin', 'end', 'cbegin', 'cend',
                 'data', 'front', 'back') and (d.endswith(' const') or d.startswith('vfc::element')):
            return [st]
        if n == '__assert_fail' or d in ('abort', 'exit', '_exit', '__cxa_throw', 'std::terminate()'):
            return []
        # a local object of another kind
        for x in a:
            p = self.place(x)
            if self.local(p):
                stays = n in ('push_back', 'emplace_back', 'push_front', 'emplace_front') and (
                    not c.startswith('std::vector') or ('reserved', p) in st.bit) or n in (
                        'reserve', 'vector', 'deque', 'list', 'back', 'front', 'operator[]', 'at', 'begin', 'end', 'data', 'rbegin', 'rend')
                if n == 'reserve' or n == 'vector' and len(a) > 1 and len(ps) > 0 and ps[0].startswith('unsigned'):
                    st.bit[('reserved', p)] = 1
                if a.index(x) == 0 and not d.endswith(' const') and not stays:
                    self.modify(p, st, i)
                v = st.obj.pop(p, None)
                if isinstance(v, Val) and v.kind != 'unk' or isinstance(v, tuple) and v and v[0] in ('buffer', 'writer'):
                    self.imp(st, 'the function %s' % d[:60])
                    st.obj[p] = UNKV
        return [st]

    def sized(self, v, t):
        """Text of a given length."""
        x = v.segs[0]
        d = self.describe(t)
        if x[0] == 'term' and x[1][0] == 'text' and d == ('size', x[1][1]) or x[0] == 'lit' and d == ('const', len(x[1])):
            return v
        if x[0] == 'term' and x[1][0] == 'text':
            q = patom(t) if t[0] == 'p' else None
            while q is not None and q[0] in ('trunc', 'zext'):
                q = q[2] if q[0] == 'trunc' else patom(q[2]) if q[2][0] == 'p' else None
            if q is not None and q[0] == 'call' and qualified(q[1])[1] in ('size', 'length'):
                w = self.where_of(q[2][0])
                if w is not None and w == x[1][1:3]:
                    return v
        return Val('str', (('?', None),))

    def stdstring(self, i, st, a, n, ps):
        p = self.place(a[0])
        if n in ('c_str', 'data', 'size', 'length', 'empty', 'operator[]', 'at', 'front', 'back', 'begin', 'end') and n != 'basic_string':
            return [st]
        if n.startswith('~'):
            self.modify(p, st, i)
            return [st]
        if n == 'basic_string' or n in ('operator=', 'assign'):
            if n != 'basic_string':
                self.modify(p, st, i)
            x = None
            if not ps or ps[0].startswith('std::allocator'):
                x = ('lit', '')
            elif ps[0].startswith('char const*'):
                b = self.buffer_of(a[1])
                if b is not None:
                    x = st.obj.get(b)
                    sz = self.buffer_of(a[2]) if len(ps) > 1 and ps[1].startswith('unsigned long') else b
                    if sz != b:
                        x = None
                else:
                    x = self.copied(self.ref(i['args'][1], i, st))
            elif 'basic_string' in ps[0] and (len(ps) == 1 or ps[1].startswith('std::allocator')):
                x = self.copied(self.string_at(a[1], st))
            if x is None:
                st.obj.pop(p, None)
            else:
                st.obj[p] = x
            return [st]
        self.modify(p, st, i)
        if n == 'clear':
            st.obj[p] = ('lit', '')
        elif n not in ('reserve', 'shrink_to_fit'):
            st.obj.pop(p, None)
        return [st]

    def buffer_of(self, t):
        a = atom_of(t)
        if a is not None and a[0] == 'call' and qualified(a[1])[1] in ('GetString', 'GetSize', 'GetLength') and 'StringBuffer' in a[1]:
            return self.place(a[2][0])
        return None

    def json(self, i, st, a, c, n, ps):
        p = self.place(a[0]) if a else None
        if n == 'GetAllocator':
            return [st]
        if n in ('GenericValue', 'GenericDocument'):
            first = ps[0] if ps else ''
            if n == 'GenericDocument' and not first.startswith('rapidjson::Type'):
                v = NULL
            elif not ps:
                v = NULL
            elif first.startswith('rapidjson::Type'):
                k = self.known(i['args'][1], st)
                v = {3: Val('obj', ()), 4: Val('arr', ()), 0: NULL}.get(k, UNKV)
            elif 'GenericValue' in first and len(ps) > 1:
                q = self.place(a[1])
                v = self.value(q, st)
            else:
                v = self.operand(first, i['args'][1], i, st, any('Allocator' in x for x in ps[1:]))
                if v.kind == 'str' and len(ps) > 1:
                    if any('Allocator' in x for x in ps[1:]):
                        if ps[1].startswith('unsigned'):
                            v = self.sized(v, a[2])
                        x = self.copied(v.segs[0])
                        v = UNKV if x is None else Val('str', (x,))
                    elif ps[1].startswith('unsigned'):
                        v = self.sized(v, a[2])
            st.obj[p] = v
            return [st]
        if n.startswith('~'):
            st.obj.pop(p, None)
            return [st]
        if n == 'AddMember':
            name = self.operand(ps[0], i['args'][1], i, st)
            v = self.operand(ps[1], i['args'][2], i, st)
            nm = name.segs[0] if name.kind == 'str' else None
            if nm is not None and nm[0] == 'local':
                nm = nm[2]
            if nm is None or nm[0] != 'lit':
                self.imp(st, 'a member whose name is not followed')
                return [st]
            self.add(p, ('m', nm[1], v), st, i, 'obj')
            return [st]
        if n == 'PushBack':
            self.add(p, ('v', self.operand(ps[0], i['args'][1], i, st)), st, i, 'arr')
            return [st]
        if n == 'Accept':
            return self.accept(i, st, p, self.place(a[1]))
        if n in ('Reserve', 'MemberReserve', 'Size', 'MemberCount', 'Empty', 'GetType', 'Capacity', 'MemberCapacity') or n.startswith('Is'):
            return [st]
        if n in ('SetObject', 'SetArray', 'SetNull'):
            st.obj[p] = {'SetObject': Val('obj', ()), 'SetArray': Val('arr', ()), 'SetNull': NULL}[n]
            return [st]
        if n in ('SetInt', 'SetUint', 'SetInt64', 'SetUint64', 'SetDouble', 'SetFloat', 'operator=', 'SetString', 'SetBool') and ps:
            v = self.operand(ps[0], i['args'][1], i, st, any('Allocator' in x for x in ps[1:]))
            if n == 'SetString' and v.kind == 'str':
                if len(ps) > 1 and ps[1].startswith('unsigned'):
                    v = self.sized(v, a[2])
                if any('Allocator' in x for x in ps[1:]):
                    x = self.copied(v.segs[0])
                    v = UNKV if x is None else Val('str', (x,))
            st.obj[p] = v
            return [st]
        if n == 'Swap':
            q = self.place(a[1])
            u, v = self.value(p, st), self.value(q, st)
            st.obj[p], st.obj[q] = v, u
            return [st]
        if n in ('Move',):
            return [st]
        self.imp(st, 'the function %s of a JSON value' % n)
        if p is not None and self.local(p):
            st.obj[p] = UNKV
        return [st]

    def returns_self(self, i):
        return self.q(i)[1] in ('AddMember', 'PushBack', 'Reserve', 'MemberReserve', 'Move', 'SetObject', 'SetArray', 'SetString', 'operator=')

    def place(self, t):
        # functions that return the object that they work on
        for _ in range(20):
            a = atom_of(t)
            if a is not None and a[0] == 'call' and a[2] and 'rapidjson' in a[1] and qualified(a[1])[1] in (
                    'AddMember', 'PushBack', 'Reserve', 'MemberReserve', 'Move', 'SetObject', 'SetArray', 'SetString', 'operator=', 'SetIndent',
                    'SetFormatOptions'):
                t = a[2][0]
            else:
                break
        return super().place(t)

    def writer(self, i, st, a, n, ps):
        p = self.place(a[0]) if a else None
        if n in ('PrettyWriter', 'Writer'):
            st.obj[p] = ('writer', self.place(a[1]) if ps and 'StringBuffer' in ps[0] else None)
        elif n == 'Reset':
            st.obj[p] = ('writer', self.place(a[1]))
        elif n == 'SetMaxDecimalPlaces':
            k = self.known(i['args'][1], st)
            ok = isinstance(k, int) and 324 <= k < 1 << 31
            self.note('R:value', 'digits', 'ok' if ok else 'violation', st, 'the minimum and maximum values are cut off after %s digits' % k,
                      i.where())
        elif n.startswith('~') or n in ('SetIndent', 'SetFormatOptions', 'GetMaxDecimalPlaces', 'IsComplete', 'Flush'):
            pass
        else:
            self.imp(st, 'the function %s of the writer' % n)
            w = st.obj.get(p)
            if isinstance(w, tuple) and w[:1] == ('writer',) and w[1] is not None:
                st.obj.pop(w[1], None)
        return [st]

    def accept(self, i, st, p, w):
        v = self.value(p, st)
        x = st.obj.get(w)
        b = x[1] if isinstance(x, tuple) and x[0] == 'writer' else None
        if b is None:
            self.imp(st, 'a writer that is not followed')
            return [st]
        self.borrowed(v, st, i)
        s2 = st.copy()
        before = st.obj.get(b)
        st.obj[b] = ('json', v, i.id) if before == ('buffer', ()) else ('many',)
        s2.obj[b] = ('partial',)
        st.env[i.id], s2.env[i.id] = 1, 0
        s2.bit['failedaccept'] = 1
        return [st, s2]

    def borrowed(self, v, st, i):
        """Text that the document refers to is still there."""
        for x in parts_of(v):
            if isinstance(x, tuple) and x and x[0] == 'local' and len(x) == 3:
                g = st.bit.get(('gone', x[1]))
                self.note('R:alive', 'local text', 'violation' if g else 'ok', st,
                          'text in a local object is used after it was changed or destroyed at %s' % g, i.where())
            elif isinstance(x, tuple) and x and x[0] in ('term', 'lit') and len(x) == 2:
                self.note('R:alive', 'text of the arguments' if x[0] == 'term' else 'literals', 'ok', st)

    def finish(self, t, st):
        self.results.append((st.obj.get((('arg', 0), 0)), st, t.where()))


class Compare:
    """Comparison of a tree with what the arguments say."""

    def __init__(self, X, r):
        self.X, self.r = X, r
        self.seen = {}

    def put(self, inst, status, detail, where, st):
        if status == 'violation' and st.bit.get('imp'):
            status, detail = 'undecided', detail + ' (depends on %s)' % st.bit['imp']
        o = self.seen.get(inst)
        if o is None or WORSE[status] > WORSE[o[0]]:
            self.seen[inst] = (status, detail if status != 'ok' else '', where)

    def members(self, v, want, name, ctx):
        """Members of an object: each of those that are wanted exactly once, no others."""
        if v.kind == 'unk':
            return self.put(name, 'undecided', 'the value is not followed', *ctx)
        if v.kind != 'obj':
            return self.put(name, 'violation', 'is %s and not an object' % KINDS[v.kind], *ctx)
        have = {}
        for s in v.segs:
            if s[0] == 'm':
                have.setdefault(s[1], []).append(s[2])
            elif s[0] == 'none':
                continue
            else:
                self.put(name, 'violation', 'members are added in a loop', *ctx)
        for k, f in want.items():
            vs = have.pop(k, [])
            optional = f is None
            if len(vs) == 1:
                if optional:
                    self.put('%s.%s' % (name, k), 'violation', 'is present though there are no indices', *ctx)
                else:
                    f(vs[0], '%s.%s' % (name, k), ctx)
            elif len(vs) > 1:
                self.put('%s.%s' % (name, k), 'violation', 'is present %d times' % len(vs), *ctx)
            elif not optional:
                self.put('%s.%s' % (name, k), 'violation', 'is missing', *ctx)
            else:
                self.put('%s.%s' % (name, k), 'ok', '', *ctx)
        for k in have:
            self.put('%s.%s' % (name, k), 'violation', 'is not part of the result', *ctx)

    def items(self, v, dom, f, name, ctx, maybe_empty=False):
        """Items of an array: one for each element of one of the containers, in order."""
        X = self.X
        if v.kind == 'unk':
            return self.put(name, 'undecided', 'the value is not followed', *ctx)
        if v.kind != 'arr':
            return self.put(name, 'violation', 'is %s and not an array' % KINDS[v.kind], *ctx)
        loops = {l.id: l for l in X.g.loops}
        n = 0
        for s in v.segs:
            if s[0] == 'v':
                self.put(name, 'violation', 'an item is added apart from those of the elements', *ctx)
                continue
            l = loops.get(s[1])
            D = X.over(l) if l is not None else None
            D = X.resolve(D) if D is not None else None
            if s[0] == 'none':
                n += D in dom
                continue
            if s[0] == 'early':
                self.put(name, 'violation', 'the loop may end before all elements were added', *ctx)
                n += 1
                continue
            if D not in dom:
                t = l.trip
                known = D is not None
                if not known and t is not None and t[0] == 'p':
                    c = [(k, x) for k, x in t[2] if k]
                    known = pconst(t) is not None or len(c) == 1 and c[0][1] == 1 and c[0][0][0][0] == 'call' and \
                        qualified(c[0][0][0][1])[1] in ('size', 'length')
                self.put(name, 'violation' if known else 'undecided', 'the items are not those of all elements', *ctx)
                n += 1
                continue
            n += 1
            for pat in s[2]:
                pat = tuple(x for x in pat if x[0] != 'none')
                if len(pat) != 1 or pat[0][0] != 'v':
                    self.put(name, 'violation', 'an element may add %s' % ('nothing' if not pat else 'more than one item'), *ctx)
                else:
                    f(pat[0][1], l.id, name + '[]', ctx)
        if n == 0:
            self.put(name, 'ok' if maybe_empty else 'violation', 'no items are added', *ctx)
        elif n > 1:
            self.put(name, 'violation', 'the elements are added more than once', *ctx)
        else:
            self.put(name, 'ok', '', *ctx)

    def number(self, want, types):
        def f(v, name, ctx):
            if v.kind == 'unk':
                return self.put(name, 'undecided', 'the value is not followed', *ctx)
            if v.kind != 'num':
                return self.put(name, 'violation', 'is %s and not a number' % KINDS[v.kind], *ctx)
            ty, t = v.segs
            d = self.X.describe(t)
            if d is None:
                why = self.derived(t, want)
                return self.put(name, 'violation' if why else 'undecided', why or 'the number is not followed', *ctx)
            if d not in want:
                return self.put(name, 'violation', 'is %s and not %s' % (self.show(d), self.show(want[0])), *ctx)
            if ty not in types:
                return self.put(name, 'violation', 'is written as %s' % ty, *ctx)
            self.put(name, 'ok', '', *ctx)
        return f

    def derived(self, t, want):
        """The number is computed from the wanted one but is not it, or from numbers of elements only."""
        X, c = self.X, self.X.F.c
        leaves = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if not isinstance(x, tuple) or not x:
                continue
            if x[0] in ('ld', 'ldv', 'call', 'iv', 'phi', 'hphi', 'bphi', 'undef', 'opq', 'exitv', 'ev', 'b', 'ite', 'f'):
                d = X.describe(x)
                if d is None:
                    return ''
                leaves.add((d, x))
            else:
                todo += [y for y in x if isinstance(y, tuple)]
        hit = [x for d, x in leaves if d in want]
        if hit and len(leaves) == 1 and t[0] == 'p':
            x = hit[0]
            s, why = c.teq(t, X.g.cast('zext', A(32, x), t[1], 32) if t[1] > 32 else A(32, x))
            return 'is not %s: %s' % (self.show(want[0]), why) if s == 'violation' else ''
        if leaves and all(d[0] == 'size' for d, x in leaves) and all(w[0] in ('mem', 'stride') for w in want):
            return 'depends only on %s and not on %s' % (', '.join(sorted(self.show(d) for d, x in leaves)), self.show(want[0]))
        return ''

    def string(self, want):
        def f(v, name, ctx):
            if v.kind == 'unk':
                return self.put(name, 'undecided', 'the value is not followed', *ctx)
            if v.kind != 'str':
                return self.put(name, 'violation', 'is %s and not text' % KINDS[v.kind], *ctx)
            x = v.segs[0]
            if x[0] == 'local':
                x = x[2] or ('?', None)
            if x[0] == '?':
                return self.put(name, 'undecided', 'the text is not followed', *ctx)
            have = x[1] if x[0] == 'term' else x
            if have not in want:
                return self.put(name, 'violation', 'is %s and not %s' % (self.show(have), self.show(want[0])), *ctx)
            self.put(name, 'ok', '', *ctx)
        return f

    def show(self, d):
        if d[0] == 'lit':
            return "'%s'" % d[1]
        if d[0] in ('at', 'arg'):
            return d[1] if d[0] == 'arg' else '%s[%s]' % (self.show(d[1]), 'i' if isinstance(d[2], tuple) and d[2][0] == 'iv' else
                                                          d[2] if isinstance(d[2], int) else '?')
        if d[0] in ('mem', 'comp', 'text'):
            return '%s of %s at offset %s' % ({'mem': 'memory', 'comp': 'component', 'text': 'the text'}[d[0]], self.show(d[1]), d[2])
        if d[0] in ('stride', 'size'):
            return 'the %s of %s' % (d[0], self.show(d[1]))
        if d[0] in ('elementLayoutName', 'elementTypeName'):
            return '%s of %s' % (d[0], self.show(d[1])) + ''.join(d[2:])
        return str(d[1])

    def four(self, base, off):
        """Array of the four components of a value."""
        def f(v, name, ctx):
            X = self.X
            if v.kind != 'arr':
                return self.put(name, 'undecided' if v.kind == 'unk' else 'violation', 'is not an array', *ctx)
            items = []
            loops = {l.id: l for l in X.g.loops}
            for s in v.segs:
                if s[0] == 'v':
                    items.append((s[1], None, None))
                elif s[0] == 'none':
                    continue
                elif s[0] == 'loop' and len(s[2]) == 1 and X.times(loops[s[1]]) is not None and X.times(loops[s[1]]) <= 64:
                    for k in range(X.times(loops[s[1]])):
                        items += [(x[1], s[1], k) for x in next(iter(s[2])) if x[0] == 'v']
                elif s[0] == 'early':
                    return self.put(name, 'violation', 'the loop may end early', *ctx)
                elif s[0] == 'loop' and len(s[2]) > 1:
                    return self.put(name, 'violation', 'a component may be left out', *ctx)
                else:
                    return self.put(name, 'undecided', 'the number of components is not known', *ctx)
            if len(items) != 4:
                return self.put(name, 'violation', '%d components' % len(items), *ctx)
            for k, (x, l, n) in enumerate(items):
                if x.kind != 'num':
                    self.put(name, 'undecided' if x.kind == 'unk' else 'violation', 'component %d is not a number' % k, *ctx)
                    continue
                ty, t = x.segs
                if l is not None:
                    t = self.at(t, l, n)
                d = X.describe(t)
                if d is None:
                    self.put(name, 'undecided', 'component %d is not followed' % k, *ctx)
                elif d not in (('comp', base, off, k), ('mem', base, off + 8*k, 'double')):
                    self.put(name, 'violation', 'component %d is %s' % (k, self.show(d) + (' component %s' % (d[3],) if d[0] == 'comp' else '')), *ctx)
                elif ty != 'double':
                    self.put(name, 'violation', 'component %d is written as %s' % (k, ty), *ctx)
                else:
                    self.put(name, 'ok', '', *ctx)
        return f

    def at(self, t, l, n):
        """The term in iteration n of a loop."""
        def walk(x):
            if not isinstance(x, tuple):
                return x
            if x and x[0] == 'p' and len(x) == 3:
                out = K(x[1], 0)
                for k, c in x[2]:
                    m = K(x[1], c)
                    for a, e in self.monom(k):
                        b = K(x[1], n) if a == ('iv', l) else A(x[1], walk(a))
                        for _ in range(e):
                            m = pmul(m, b)
                    out = padd(out, m)
                return out
            return tuple(walk(y) for y in x)
        return walk(t)

    def monom(self, k):
        return [(a, 1) for a in k]

    def document(self, v, st, where):
        ctx = (where, st)
        it = st.bit['it']
        at = lambda c, l: ('at', c, ('iv', l))
        arg = lambda n: ('arg', n)
        U32 = ('unsigned int', 'unsigned long', 'unsigned long long')

        def element(fmt, bnd):
            def f(v, l, name, ctx):
                e, b = at(fmt, l), at(bnd, l)
                self.members(v, {
                    'name': self.string([('text', e, 0)]),
                    'layout': self.string([('elementLayoutName', ('mem', e, 32, 'i8'))]),
                    'type': self.string([('elementTypeName', ('mem', e, 33, 'i8'))]),
                    'offset': self.number([('mem', e, 36, 'i32')], U32),
                    'minValue': self.four(b, 0),
                    'maxValue': self.four(b, 32)}, name, ctx)
            return f

        def stream(v, l, name, ctx):
            fmt, bnd = at(arg('vertexFormat'), l), at(arg('bounds'), l)
            self.members(v, {
                'vertexFormat': lambda v, n, c: self.items(v, (fmt, bnd), element(fmt, bnd), n, c),
                'vertexStride': self.number([('stride', fmt)], U32),
                'vertexData': self.string([('text', at(arg('vertexData'), l), 0)])}, name, ctx)

        def buffer(v, l, name, ctx):
            e = at(arg('indexData'), l)
            self.members(v, {
                'indexCount': self.number([('mem', e, 0, 'i32')], U32),
                'baseVertex': self.number([('mem', e, 4, 'i32')], ('int', 'long', 'long long')),
                'indexData': self.string([('mem', e, 8, 'i64'), ('mem', e, 8, 'ptr')])}, name, ctx)

        want = {'vertices': lambda v, n, c: self.items(v, tuple(arg(x) for x in ARGS[:3]), stream, n, c),
                'vertexCount': self.number([('val', 'vertexCount')], U32)}
        empty = next((x for k, x in st.bit.items() if isinstance(k, tuple) and k[0] == 'c' and k[1][0] == 'empty' and
                      self.X.resolve(k[1][1]) == arg('indexData')), None)
        names = {1: ('lit', 'UInt16'), 2: ('lit', 'UInt32')}
        if it == {0}:
            want['indexType'] = want['indexBuffers'] = None
        elif 0 not in it:
            if len(it) == 1:
                want['indexType'] = self.string([names[next(iter(it))]])
            else:
                want['indexType'] = lambda v, n, c: self.put(n, 'violation', 'does not depend on the type of the indices', *c)
            if empty == 1:
                have = [s for s in v.segs if s[0] == 'm' and s[1] == 'indexBuffers'] if v.kind == 'obj' else []
                want['indexBuffers'] = None if not have else lambda v, n, c: self.items(v, (arg('indexData'),), buffer, n, c, True)
            else:
                want['indexBuffers'] = lambda v, n, c: self.items(v, (arg('indexData'),), buffer, n, c)
        else:
            for k in ('indexType', 'indexBuffers'):
                want[k] = lambda v, n, c: self.put(n, 'violation', 'is present for some types of indices only by chance', *c)
            have = {s[1] for s in v.segs if s[0] == 'm'} if v.kind == 'obj' else set()
            for k in ('indexType', 'indexBuffers'):
                if k not in have:
                    want[k] = lambda v, n, c: None
                    if not (k == 'indexBuffers' and empty == 1):
                        self.put('document.' + k, 'violation', 'is missing with indices', *ctx)
                    want.pop(k)
        self.members(v, want, 'document', ctx)


def analyse(ws):
    raw = Module(ws.ir(tool_srcs(ws), **sc.RAW))
    dem = next((f.dem for f in raw.funcs.values() if re.match(r'resultFile(\[abi:\w+\])?\(', f.dem or '')), None)
    if dem is None:
        return None
    m = tmodule(ws, [('s|resultFile', dem)], keep=['^std::', '^rapidjson::', '^vfc::'])
    X = ResultFlow(ws, m, 's|resultFile')
    X.run(X.start())
    return X


def result(ws, r):
    X = analyse(ws)
    if X is None:
        r.und('result', 'resultFile', 'function not found')
        return
    C = Compare(X, r)
    n = 0
    for got, st, where in X.results:
        bad = [k for k, v in st.obj.items() if v == ('partial',)]
        kind = None
        if isinstance(got, tuple) and got[:1] == ('json',):
            C.put('returned', 'ok', '', where, st)
            C.document(got[1], st, where)
            n += 1
        elif got == ('lit', ''):
            # only after a failure
            fail = st.bit.get('failedaccept')
            C.put('failure' if fail else 'returned', 'ok' if fail else 'violation', 'nothing is returned though the document was written', where, st)
        elif got == ('partial',):
            C.put('failure', 'violation', 'an incomplete document is returned when it could not be written', where, st)
        elif got is None or got[:1] == ('?',):
            C.put('returned', 'undecided', 'what is returned is not followed', where, st)
        else:
            C.put('returned', 'violation', 'what is returned is not the document', where, st)
    for inst, (s, d, where) in sorted(C.seen.items()):
        r.put(s, 'result', inst, d, where)
    for (rule, inst), (s, d, where) in sorted(X.found.items()):
        if rule == 'R:value':
            r.put(s, 'result', inst, d if s != 'ok' else '', where)
    r.count('abstract states of blocks of resultFile', X.steps)
    r.count('documents compared', n)
    r.need('result', 18)


def t06(ws, r):
    t06_main(ws, r)
    result(ws, r)


def t07(ws, r):
    t07_main(ws, r)
    X = analyse(ws)
    if X is None:
        r.und('alive', 'resultFile', 'function not found')
        return
    n = 0
    for (rule, inst), (s, d, where) in sorted(X.found.items()):
        if rule == 'R:alive':
            n += 1
            r.put(s, 'alive', 'resultFile: %s' % inst, d if s != 'ok' else '', where)
    imp = {st.bit.get('imp') for _, st, _ in X.results} - {None}
    for x in sorted(imp)[:1]:
        r.und('alive', 'resultFile', 'depends on %s' % x)
    r.count('abstract states of blocks of resultFile', X.steps)
