"""T04: what the loader accepts, rejects and stores.

A disjunctive abstract interpretation of the inlined loader: a state says whether an error was reported, what each tracked
container holds (nothing, or what was read from which JSON array) and the value of flags, together with the condition on the
document (BDD over type queries) under which the state is reached within the current iteration of each loop."""
import re
from ..build import AnalysisError
from ..lib import *
from ..terms import *
from .config_checks import Config, rj, vname, STRING, PURE, tmodule

VECM = re.compile(r'^[^()]*std::vector<(.*?)>::(~?[a-z_]\w*|operator=)(?:<[^()]*>)?\((.*)\)(?: const)?$')
FMTM = re.compile(r'^(?:[^()]*[ &])?vfc::VertexFormat::(~?\w+|operator=)\((.*)\)(?: const)?$')
E, U = ('E',), ('U',)


class State:
    __slots__ = ('rep', 'cont', 'env', 'imp', '_k')

    def __init__(self, rep=0, cont=(), env=(), imp=0):
        self.rep, self.cont, self.env, self.imp = rep, dict(cont), dict(env), imp
        self._k = None

    def copy(self):
        return State(self.rep, self.cont, self.env, self.imp)

    def key(self):
        if self._k is None:
            self._k = (self.rep, frozenset(self.cont.items()), frozenset(self.env.items()), self.imp)
        return self._k


class Interp:
    def __init__(self, C):
        self.C, self.g, self.B, self.fn = C, C.g, C.B, C.g.fn
        self.rpo = self.fn.rpo()
        self.num = {b: k for k, b in enumerate(self.rpo)}
        self.events = []        # (kind, instruction, state, condition, data)
        self.liveness()
        self.header = {l.header: l for l in self.g.loops}
        self.argm = {}
        self.esize = {}
        self.diffs = {}
        self.steps = 0
        m = C.m
        self.cf, self.sf = m.fields('ConfigFile'), m.fields('ConfigFile::VertexStream')
        self.succeeded = m.enum('vfc::VertexFormat::AddResult')['Succeeded']
        sizes = {'vfc::VertexFormat': self.sf['vertexFormat']['size'],
                 'ConfigFile::VertexStream': -(-max(x['off'] + x['size'] for x in self.sf.values())//8)*8}
        for i in C.calls:
            mm = VECM.match(i['dem'])
            if mm:
                w = self.where(self.args(i)[0])
                t = mm.group(1).split(',')[0]
                if w is not None and t in sizes:
                    self.esize[w] = sizes[t]

    # ------------------------------------------------------------ flags
    def liveness(self):
        """Where the flags (integer phis) are still needed."""
        fn = self.fn
        self.flag = {i.id for i in fn.all() if i.op == 'phi' and i['ty'] in ('i1', 'i8', 'i32')}
        dep = {}

        def deps(i):
            if i.id in dep:
                return dep[i.id]
            dep[i.id] = frozenset()
            r = set()
            for o in i.ops:
                if o[0] == 'v' and o[1] in fn.insts:
                    j = fn.insts[o[1]]
                    if j.id in self.flag:
                        r.add(j.id)
                    elif j.op != 'phi':
                        r |= deps(j)
            dep[i.id] = frozenset(r)
            return dep[i.id]
        use = {b: set() for b in fn.blocks}
        puse = {}
        for i in fn.all():
            if i.op == 'phi':
                for o, b in i['in']:
                    if o[0] == 'v' and o[1] in fn.insts:
                        j = fn.insts[o[1]]
                        puse.setdefault((b, i.bb), set()).update({j.id} if j.id in self.flag else (deps(j) if j.op != 'phi' else ()))
            elif i.op not in ('call', 'invoke'):
                use[i.bb] |= deps(i)
        live = {b: set(use[b]) for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                n = set(use[b])
                for s in fn.succ[b]:
                    n |= (live[s] - {i.id for i in fn.bb[s] if i.op == 'phi'}) | puse.get((b, s), set())
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live

    def known(self, o, st):
        """Value of an operand in this state: int, 'nz' or None."""
        if o[0] == 'i':
            return int(o[2])
        if o[0] != 'v':
            return None
        if ('v', o[1]) in st.env:
            return st.env[('v', o[1])]
        i = self.fn.insts.get(o[1])
        if i is None:
            return None
        if i.op in ('zext', 'trunc', 'freeze', 'sext'):
            x = self.known(i.ops[0], st)
            if x is None or x == 'nz':
                return None if i.op == 'trunc' else x
            w = width(i['ty'])
            return x & ((1 << w) - 1) if w and i.op != 'sext' else x
        if i.op == 'icmp':
            a, b = self.known(i.ops[0], st), self.known(i.ops[1], st)
            if a is None or b is None:
                return None
            p = i['pred']
            if 'nz' in (a, b):
                if p in ('eq', 'ne') and 0 in (a, b):
                    return int(p == 'ne')
                if p == 'ugt' and b == 0:
                    return 1
                return None
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ugt': a > b, 'ule': a <= b, 'uge': a >= b,
                        'slt': a < b, 'sgt': a > b, 'sle': a <= b, 'sge': a >= b}[p])
        if i.op in ('sdiv', 'udiv', 'lshr', 'ashr') and i.ops[0][0] == 'v' and i.ops[1][0] == 'i':
            # number of elements from the size in bytes
            j = self.fn.insts.get(i.ops[0][1])
            return st.env.get(('v', j.id)) if j is not None and j.op == 'sub' and self.difference(j) is not None else None
        if i.op in ('and', 'or', 'xor') and i['ty'] == 'i1':
            a, b = self.known(i.ops[0], st), self.known(i.ops[1], st)
            if i.op == 'and':
                return 0 if 0 in (a, b) else (1 if (a, b) == (1, 1) else None)
            if i.op == 'or':
                return 1 if 1 in (a, b) else (0 if (a, b) == (0, 0) else None)
            return None if a is None or b is None else a ^ b
        if i.op == 'select':
            c = self.known(i.ops[0], st)
            return None if c is None else self.known(i.ops[1 if c else 2], st)
        return None

    def cond(self, o, st, ctx):
        """Condition that an i1 operand is true."""
        B = self.B
        k = self.known(o, st)
        if k is not None and k != 'nz':
            return 1 if k else 0
        if o[0] == 'v':
            i = self.fn.insts.get(o[1])
            if i is not None and i['ty'] == 'i1':
                if i.op in ('and', 'or', 'xor'):
                    a, b = self.cond(i.ops[0], st, ctx), self.cond(i.ops[1], st, ctx)
                    return {'and': B.AND, 'or': B.OR, 'xor': B.XOR}[i.op](a, b)
                if i.op == 'select':
                    return B.ite(self.cond(i.ops[0], st, ctx), self.cond(i.ops[1], st, ctx), self.cond(i.ops[2], st, ctx))
                if i.op == 'freeze':
                    return self.cond(i.ops[0], st, ctx)
        return self.emptiness(self.C.cb(self.g.asbool(self.g.term(o, ctx))), st)

    def emptiness(self, f, st):
        """Use what the state knows about containers."""
        B = self.B
        for v in list(B.support(f)):
            a = B.atoms[v]
            if a[0] == 'eq' and a[2] == 0:
                x = self.extent(a[1])
                if x is not None:
                    s = self.get(x, st)
                    if s is not None and s[0] in 'EN':
                        f = B.restrict(f, v, 1 if s[0] == 'E' else 0)
            elif a[0] == 'bool' and a[1][0] == 'call' and '::empty()' in a[1][1] or a[0] == 'call' and '::empty()' in a[1]:
                s = self.get(self.where((a[1] if a[0] == 'bool' else a)[2][0]), st)
                if s is not None and s[0] in 'EN':
                    f = B.restrict(f, v, 1 if s[0] == 'E' else 0)
            elif a[0] == 'ltc' and a[2] == 1:
                x = self.extent(a[1])
                if x is not None:
                    s = self.get(x, st)
                    if s is not None and s[0] in 'EN':
                        f = B.restrict(f, v, 1 if s[0] == 'E' else 0)
        return f

    def extent(self, t):
        """Container whose size (in bytes or elements) this is."""
        if t[0] != 'p':
            return None
        if len(t[2]) == 1:
            k = t[2][0][0]
            if len(k) == 1 and k[0][0] in ('div', 'sdiv'):
                return self.extent(k[0][1])
        if len(t[2]) != 2:
            return None
        ads = []
        for k, c in t[2]:
            if len(k) != 1 or k[0][0] not in ('ld', 'ldv'):
                return None
            ads.append(k[0][2])
        for a, b in (ads, ads[::-1]):
            if b == padd(a, K(64, 8)):
                return self.where(a)
        return None

    def difference(self, i):
        """Container whose first and last pointers are subtracted or compared."""
        if i.id not in self.diffs:
            self.diffs[i.id] = None
            if i.op == 'icmp' and i['pred'] not in ('eq', 'ne'):
                return None
            ads, at = [], []
            for o in i.ops:
                j = self.fn.insts.get(o[1]) if o[0] == 'v' else None
                if j is not None and j.op == 'ptrtoint':
                    j = self.fn.insts.get(j.ops[0][1]) if j.ops[0][0] == 'v' else None
                if j is None or j.op != 'load' or j['ty'] != 'ptr' or j.bb != i.bb:
                    return None
                ads.append(self.C.cv(self.g.term(j.ops[0], self.g.loop_of[i.bb])))
                at.append(j)
            b = self.fn.bb[i.bb]
            pos = {x.id: k for k, x in enumerate(b)}
            for x in b[min(pos[j.id] for j in at):pos[i.id]]:
                if x.op in ('call', 'invoke') and not x.get('intr', '').startswith('llvm.'):
                    return None
            for x, y in (ads, ads[::-1]):
                if y == padd(x, K(64, 8)):
                    self.diffs[i.id] = self.where(x)
        return self.diffs[i.id]

    # ------------------------------------------------------------ containers
    def where(self, t):
        """Canonical place of an address: (container, path of offsets into its last element)."""
        if t is None or t[0] != 'p':
            return None
        r, off = root_off(t)
        a = patom(r)
        if a is None:
            return None
        o = sconst(off) if isinstance(off, tuple) else off
        if a[0] in ('ld', 'ldv') and o is not None:
            v = padd(a[2], K(64, -8 & ((1 << 64) - 1)))
            x = self.where(v)
            if x is not None:
                sz = self.esize.get(x)
                if sz and -sz <= o < 0:
                    return ('last', x, o + sz)
            return None
        if a[0] == 'call' and 'emplace_back' in a[1] and o is not None and o >= 0:
            x = self.where(a[2][0])
            return ('last', x, o) if x is not None else None
        if a[0] in ('alloca', 'arg') and o is not None:
            return (a, o)
        return None

    def get(self, w, st):
        if w is None:
            return None
        if w[0] == 'last':
            s = self.get(w[1], st)
            if s is None or s[0] != 'N':
                return U
            return dict(s[2]).get(w[2], U)
        return st.cont.get(w)

    def put(self, w, st, v):
        if w is None:
            return
        if w[0] == 'last':
            s = self.get(w[1], st)
            if s is not None and s[0] == 'N':
                d = dict(s[2])
                d[w[2]] = v
                self.put(w[1], st, (s[0], s[1], tuple(sorted(d.items(), key=repr))))
            return
        if v is None:
            st.cont.pop(w, None)
        else:
            st.cont[w] = v

    def array_of(self, l):
        """JSON array that a loop goes over."""
        while l is not None:
            if l.trip is not None:
                t = atom_of(self.C.cv(l.trip))
                if t is not None and t[0] == 'sym' and t[1] == 'size':
                    return t[2]
            l = l.parent
        return None

    def args(self, i):
        if i.id not in self.argm:
            self.argm[i.id] = [self.C.cv(a) for a in self.g.args(i)]
        return self.argm[i.id]

    def added(self, st, q):
        k = ('app', q)
        st.env[k] = min(2, st.env.get(k, 0) + 1)

    def deref(self, t, i, ty):
        return self.C.cv(self.g.value_before(t, ty, i, self.g.loop_of[i.bb]))

    def call(self, i, st, c):
        """Successor states of a call."""
        B, g = self.B, self.g
        d = i['dem']
        a = self.args(i)
        if d.startswith('std::function<') and '::operator()' in d and a[0] == A(64, ('arg', 3)):
            self.events.append(('report', i, st, c, None))
            st.rep = 1
            return [(st, c)]
        if d.startswith(STRING):
            n = d[len(STRING):]
            w = self.where(a[0])
            if n.startswith('basic_string('):
                s = None
                if 'char const*' in n:
                    t = atom_of(a[1])
                    if t is not None and t[0] == 'sym':
                        s = ('S', a[1])
                elif len(a) > 1:
                    s = self.get(self.where(a[1]), st)
                self.put(w, st, s)
            elif n.startswith('~'):
                self.put(w, st, None)
            elif n.startswith(('operator=', 'assign(')):
                if 'char const*' in n and len(a) == 2:
                    self.put(w, st, ('S', a[1]))
                else:
                    self.put(w, st, self.get(self.where(a[1]), st) or U)
            elif n.startswith('clear('):
                self.put(w, st, E)
            elif not n.rstrip().endswith('const') and w is not None and self.get(w, st) is not None:
                self.put(w, st, U)
            return [(st, c)]
        m = VECM.match(d)
        if m and re.match(r'(vfc::VertexFormat|ConfigFile::VertexStream|std::pair<std::__cxx11::basic_string<.*>, '
                          r'vfc::Converter::Transform>)\s*(,|$)', m.group(1)):
            return self.vector(i, st, c, m.group(2), m.group(3), a)
        m = FMTM.match(d)
        if m:
            return self.format(i, st, c, m.group(1), m.group(2), a)
        # anything else that gets a container may change it
        if rj(d) is None and not d.endswith('const'):
            for k, x in enumerate(a):
                w = self.where(x)
                if w is not None and self.get(w, st) is not None and self.get(w, st)[0] in 'EN':
                    self.put(w, st, U)
        return [(st, c)]

    def empty(self, i, st, c, w, inv=False):
        s = self.get(w, st)
        if s is not None and s[0] == 'E':
            st.env[('v', i.id)] = 0 if inv else 1
            return [(st, c)]
        if s is not None and s[0] == 'N':
            st.env[('v', i.id)] = 'nz' if inv else 0
            return [(st, c)]
        s2 = st.copy()
        st.imp = s2.imp = 1
        st.env[('v', i.id)] = 1
        s2.env[('v', i.id)] = 0
        return [(st, c), (s2, c)]

    def construct(self, w, st, p, a):
        if not p:
            return self.put(w, st, E)
        o = self.where(a[1]) if len(a) > 1 else None
        s = self.get(o, st) if o is not None else None
        self.put(w, st, s or U)
        if '&&' in p and o is not None and s is not None:
            self.put(o, st, E)

    def vector(self, i, st, c, n, p, a):
        w = self.where(a[0])
        if n == 'vector':
            self.construct(w, st, p if p and 'allocator' not in p.split('<')[0] else '', a)
        elif n == 'operator=':
            self.construct(w, st, p, a)
        elif n == '~vector':
            self.put(w, st, None)
        elif n == 'clear':
            self.put(w, st, E)
        elif n == 'swap':
            o = self.where(a[1])
            x, y = self.get(w, st) or U, self.get(o, st) or U
            self.put(w, st, y)
            self.put(o, st, x)
        elif n in ('empty', 'size'):
            return self.empty(i, st, c, w, n == 'size')
        elif n in ('push_back', 'emplace_back'):
            q = self.array_of(self.g.loop_of[i.bb])
            old = self.get(w, st) or U
            last = ()
            if len(a) == 1:
                last = tuple((self.sf[k]['off'], E) for k in ('vertexFormat', 'vertexData', 'indexData'))
            elif len(a) == 2:
                s = self.get(self.where(a[1]), st) or U
                last = ((0, s),)
                if '&&' in p:
                    self.put(self.where(a[1]), st, E)
            else:
                self.events.append(('emplace', i, st.copy(), c, a))
            lab = q
            if old[0] == 'U':
                lab = ('unknown',)
            elif old[0] == 'N' and old[1] != q:
                lab = ('unknown',)
            self.put(w, st, ('N', lab, last))
            if q is not None:
                self.added(st, q)
        elif n in ('reserve', 'begin', 'end', 'back', 'front', 'data', 'capacity', 'operator[]', 'at', 'shrink_to_fit'):
            pass
        elif self.get(w, st) is not None:
            self.put(w, st, U)
        return [(st, c)]

    def format(self, i, st, c, n, p, a):
        B, g = self.B, self.g
        w = self.where(a[0])
        if n == 'VertexFormat':
            self.construct(w, st, p, a)
        elif n == 'operator=':
            self.construct(w, st, p, a)
        elif n == '~VertexFormat':
            self.put(w, st, None)
        elif n == 'clear':
            self.put(w, st, E)
        elif n in ('empty', 'size'):
            return self.empty(i, st, c, w, n == 'size')
        elif n == 'appendElement':
            q = self.array_of(g.loop_of[i.bb])
            self.events.append(('append', i, st.copy(), c, a))
            ok = self.C.cb(g.cmp('eq', g.value(i.id, g.loop_of[i.bb]), K(width(i['ty']) or 32, self.succeeded)))
            s2 = st.copy()
            old = self.get(w, st) or U
            lab = q if old[0] == 'E' or old[0] == 'N' and old[1] == q else ('unknown',)
            self.put(w, st, ('N', lab, ()))
            if q is not None:
                self.added(st, q)
            return [(st, B.AND(c, ok)), (s2, B.AND(c, B.NOT(ok)))]
        elif n in ('begin', 'end', 'cbegin', 'cend', 'find', 'stride', 'operator[]'):
            pass
        elif self.get(w, st) is not None:
            self.put(w, st, U)
        return [(st, c)]

    # ------------------------------------------------------------ flow
    def merge(self, d, st, c):
        k = st.key()
        if c == 0:
            return
        o = d.get(k)
        d[k] = (st, c if o is None else self.B.OR(o[1], c))

    def block(self, b, ins):
        out = []
        self.steps += 1
        if self.steps > 60000:
            raise AnalysisError('too many states in the loader')
        for st, c in ins:
            cur = [(st.copy(), c)]
            for i in self.fn.bb[b]:
                if i.op in ('call', 'invoke') and not i.get('intr', '').startswith('llvm.'):
                    nxt = []
                    for s, cc in cur:
                        nxt += self.call(i, s, cc)
                    cur = [x for x in nxt if x[1]]
                elif i.op in ('sub', 'icmp'):
                    w = self.difference(i)
                    if w is not None:
                        for s, cc in cur:
                            x = self.get(w, s)
                            if x is not None and x[0] in 'EN':
                                k = 0 if x[0] == 'E' else 'nz'
                                if i.op == 'icmp':
                                    k = int((k == 0) == (i['pred'] == 'eq'))
                                s.env[('v', i.id)] = k
                                s._k = None
            out += cur
        return out

    def edges(self, b, st, c):
        """(successor, state, condition) after block b."""
        B, fn = self.B, self.fn
        t = fn.term(b)
        ctx = self.g.loop_of[b]
        res = []
        if t.op == 'br' and len(t.ops) > 1:
            f, tr = t.ops[1][1], t.ops[2][1]
            if f == tr:
                res = [(f, c)]
            else:
                k = self.cond(t.ops[0], st, ctx)
                res = [(tr, B.AND(c, k)), (f, B.AND(c, B.NOT(k)))]
        elif t.op == 'switch':
            k = self.known(t.ops[0], st)
            if isinstance(k, int):
                to = t.ops[1][1]
                for n in range(2, len(t.ops), 2):
                    if int(t.ops[n][2]) == k:
                        to = t.ops[n + 1][1]
                res = [(to, c)]
            else:
                for s in dict.fromkeys(fn.succ[b]):
                    res.append((s, B.AND(c, self.emptiness(self.C.cb(self.g.edge_local(b, s)), st))))
        elif t.op == 'br':
            res = [(t.ops[0][1], c)]
        out = []
        for s, cc in res:
            if cc == 0:
                continue
            cur = [(st.copy(), cc)]
            for i in fn.bb[s]:
                if i.op != 'phi' or i.id not in self.flag:
                    continue
                o = next(o for o, p in i['in'] if p == b)
                nxt = []
                for x, xc in cur:
                    k = self.known(o, st)
                    if k is not None:
                        x.env[('new', i.id)] = k
                        nxt.append((x, xc))
                    elif i['ty'] == 'i1' and i.id in self.live[s] | self.used_here(s):
                        f = self.cond(o, st, ctx)
                        y = x.copy()
                        x.env[('new', i.id)] = 1
                        y.env[('new', i.id)] = 0
                        nxt += [(x, B.AND(xc, f)), (y, B.AND(xc, B.NOT(f)))]
                    else:
                        x.env.pop(('v', i.id), None)
                        nxt.append((x, xc))
                cur = [z for z in nxt if z[1]]
            for x, xc in cur:
                e = {}
                keep = self.live[s] | {i.id for i in fn.bb[s] if i.op == 'phi'}
                for k, v in x.env.items():
                    if k[0] == 'v' and k[1] in self.flag:
                        if k[1] in self.live[s] and ('new', k[1]) not in x.env:
                            e[k] = v
                    elif k[0] == 'v':
                        # results of calls are looked at soon
                        if self.fn.insts[k[1]].bb == b or k[1] in self.callslive(s):
                            e[k] = v
                    elif k[0] in ('app', 'brk') and not x.rep:
                        e[k] = v
                for k, v in x.env.items():
                    if k[0] == 'new' and k[1] in keep:
                        e[('v', k[1])] = v
                x.env = e
                x._k = None
                out.append((s, x, xc))
        return out

    def used_here(self, s):
        return {i.id for i in self.fn.bb[s] if i.op == 'phi' and i.id in self.flag and self.fn.uses.get(i.id)}

    def callslive(self, s):
        return ()

    def region(self, l, entry, st0, c0):
        """Run one iteration of loop l (or the function) from state st0: (exits, latch states, returned states)."""
        fn, B = self.fn, self.B
        inn = {entry: {}}
        self.merge(inn[entry], st0, c0)
        exits, latch, rets = {}, {}, {}

        def send(u, v, s, c):
            if l is not None and v == l.header:
                self.merge(latch.setdefault(u, {}), s, c)
            elif l is not None and v not in l.blocks:
                self.merge(exits.setdefault((u, v), {}), s, c)
            else:
                self.merge(inn.setdefault(v, {}), s, c)
        for b in self.rpo:
            if l is not None and b not in l.blocks:
                continue
            if b not in inn:
                continue
            ch = self.header.get(b)
            if ch is not None and ch is not l:
                for st, c in list(inn[b].values()):
                    for (u, v), ss in self.loop(ch, st, c).items():
                        for s2, c2 in ss.values():
                            send(u, v, s2, c2)
                continue
            if self.g.loop_of[b] is not l:
                continue
            for st, c in self.block(b, list(inn[b].values())):
                if not fn.succ[b]:
                    self.merge(rets.setdefault(b, {}), st, c)
                    continue
                for v, s2, c2 in self.edges(b, st, c):
                    send(b, v, s2, c2)
        return exits, latch, rets

    def loop(self, l, st0, c0):
        """States on the exits of a loop entered in one state."""
        B, g, C = self.B, self.g, self.C
        q = self.array_of(l) if l.trip is not None and self.array_of(l) != self.array_of(l.parent) else None
        z = 0
        if l.trip is not None:
            z = C.cb(g.cmp('eq', l.trip, K(64, 0) if l.trip[1] == 64 else K(l.trip[1], 0))) if l.trip[0] == 'p' else None
        first = st0.copy()
        if q is not None:
            first.env.pop(('app', q), None)
        first._k = None
        work, seen, out = [(first, True)], set(), {}
        while work:
            st, is1 = work.pop()
            k = (st.key(), is1)
            if k in seen:
                continue
            seen.add(k)
            ex, la, _ = self.region(l, l.header, st, c0)
            for e, ss in ex.items():
                for s2, c2 in ss.values():
                    s2 = s2.copy()
                    if e == l.trip_edge:
                        c2 = c0
                        if z is not None:
                            c2 = B.AND(c0, z if is1 else B.NOT(z))
                    elif q is not None:
                        if not s2.rep:
                            s2.env[('brk', l.id)] = e
                            s2._k = None
                        if z is not None:
                            c2 = B.AND(c2, B.NOT(z))
                    else:
                        self.events.append(('leave', fnterm(self.fn, e[0]), s2, c2, (l, e)))
                    if q is not None:
                        s2.env.pop(('app', q), None)
                        s2._k = None
                    self.merge(out.setdefault(e, {}), s2, c2)
            for u, ss in la.items():
                for s2, c2 in ss.values():
                    if q is not None:
                        self.events.append(('latch', fnterm(self.fn, u), s2.copy(), c2, (l, q)))
                    s2 = s2.copy()
                    if q is not None:
                        s2.env.pop(('app', q), None)
                    s2._k = None
                    work.append((s2, False))
        return out


def fnterm(fn, b):
    return fn.term(b)


# ---------------------------------------------------------------- what a valid document is
class Valid:
    """must: what an accepted document has; may: what a document that is not rejected may be relied on to have."""

    def __init__(self, C, I):
        self.C, self.I, self.B, self.g = C, I, C.B, C.g
        m = C.m
        self.names = {}
        for i in C.calls:
            mm = re.match(r'vfc::(\w+)FromName\(char const\*\)$', i['dem'])
            if mm:
                a = atom_of(I.args(i)[0])
                if a is not None and a[:2] == ('sym', 'GetString'):
                    t = C.cv(self.g.value(i.id, self.g.loop_of[i.bb]))
                    self.names.setdefault((mm.group(1), a[2]), t)
        self.appends = [(i, atom_of(I.args(i)[2])) for i in C.calls if 'VertexFormat::appendElement' in i['dem']]
        self.enum = {'elementLayout': m.enum('vfc::ElementLayout'), 'elementType': m.enum('vfc::ElementType'),
                     'primitiveType': m.enum('vfc::PrimitiveType')}
        self.bad = set()
        self.memo = {}

    def is_(self, t, v):
        return self.C.var('is', t, v)

    def found(self, v):
        return self.C.var('found', v[1], v[2])

    def string(self, v):
        return self.B.AND(self.found(v), self.is_('String', v))

    def nonempty(self, v):
        """The array has elements."""
        B, g = self.B, self.g
        r = 1
        for l in g.loops:
            if l.trip is not None and l.trip[0] == 'p':
                t = self.C.cv(l.trip)
                if atom_of(t) == ('sym', 'size', v):
                    r = B.AND(r, B.NOT(self.C.cb(g.cmp('eq', l.trip, K(l.trip[1], 0)))))
        return r

    def named(self, fn, v, but='Invalid'):
        """The string names an enumerator."""
        t = self.names.get((fn, v))
        if t is None:
            self.bad.add((fn, v))
            return 1
        e = self.enum[fn][but]
        f = self.g.cmp('eq', t, K(t[1], e))
        return self.B.NOT(f) if but == 'Invalid' else f

    def ieq(self, v, s):
        return self.C.var('ieq', ('sym', 'GetString', v), s)

    def indextype(self, v):
        B = self.B
        v = ('mem', v, 'indexType')
        none = B.OR(B.NOT(self.found(v)), self.is_('Null', v))
        return B.OR(none, B.AND(self.is_('String', v), B.OR(self.ieq(v, 'uint16'), self.ieq(v, 'uint32')))), none

    def kind(self, v):
        if v == ('root',):
            return 'root'
        if v[0] == 'mem':
            k = self.kind(v[1])
            return {('root', 'vertexFormat'): 'formats', ('root', 'vertexStreams'): 'streams', ('root', 'vertexTransforms'):
                    'transforms', ('stream', 'vertexFormat'): 'format'}.get((k, v[2]))
        k = self.kind(v[1])
        return {'formats': 'format', 'streams': 'stream', 'format': 'element', 'transforms': 'transform'}.get(k)

    def of(self, v):
        """(must, may) for a value."""
        if v in self.memo:
            return self.memo[v]
        B, g = self.B, self.g
        k = self.kind(v)
        mem = lambda n: ('mem', v, n)
        must, may = 1, 1
        if k == 'root':
            f, s, t, p, pp = (mem(n) for n in ('vertexFormat', 'vertexStreams', 'vertexTransforms', 'primitiveType', 'patchPoints'))
            must = B.AND(B.NOT(self.C.var('HasParseError')), self.is_('Object', v))
            for x in (f, s):
                must = B.AND(must, B.AND(self.found(x), B.AND(self.is_('Array', x), self.nonempty(x))))
            must = B.AND(must, self.indextype(v)[0])
            none = B.OR(B.NOT(self.found(p)), self.is_('Null', p))
            points = B.AND(B.AND(self.found(pp), self.is_('Int', pp)),
                           g.cmp('slt', K(32, 0), A(32, ('sym', 'GetInt', pp))))
            named = B.AND(self.is_('String', p), B.AND(self.named('primitiveType', p), B.OR(
                B.NOT(self.named('primitiveType', p, 'PatchList')), points)))
            must = B.AND(must, B.OR(none, named))
            may = B.AND(must, B.OR(B.NOT(self.found(t)), self.is_('Array', t)))
            must = B.AND(must, B.OR(B.OR(B.NOT(self.found(t)), self.is_('Null', t)), self.is_('Array', t)))
        elif k == 'format':
            must = may = B.AND(self.is_('Array', v), self.nonempty(v))
        elif k == 'element':
            must = self.is_('Object', v)
            for n in ('name', 'layout', 'type'):
                must = B.AND(must, self.string(mem(n)))
            must = B.AND(must, B.AND(self.named('elementLayout', mem('layout')), self.named('elementType', mem('type'))))
            must = B.AND(must, self.appended(v))
            may = must
        elif k == 'stream':
            must = B.AND(self.is_('Object', v), self.string(mem('vertexData')))
            f = mem('vertexFormat')
            must = B.AND(must, B.AND(self.found(f), B.AND(self.is_('Array', f), self.nonempty(f))))
            ok, none = self.indextype(v)
            must = B.AND(must, B.AND(ok, B.OR(none, self.string(mem('indexData')))))
            may = must
        elif k == 'transform':
            t = mem('transform')
            one = 0
            for n in ('identity', 'bounds', 'unormtosnorm', 'snormtounorm'):
                one = B.OR(one, self.ieq(t, n))
            must = B.AND(B.AND(self.is_('Object', v), self.string(mem('name'))), B.AND(self.string(t), one))
            may = must
        self.memo[v] = must, may
        return must, may

    def appended(self, v):
        B, g = self.B, self.g
        r = 1
        for i in self.C.calls:
            if 'VertexFormat::appendElement' not in i['dem']:
                continue
            ps = paths_of(self.I.args(i))
            if any(p[:1] == ('mem',) and p[1] == v for p in ps) or self.I.array_of(g.loop_of[i.bb]) == v[1]:
                r = B.AND(r, self.C.cb(g.cmp('eq', g.value(i.id, g.loop_of[i.bb]), K(width(i['ty']) or 32, self.I.succeeded))))
        return r

    def all(self, n, which):
        """Conjunction for every value that a condition mentions and those around them."""
        B = self.B
        ps = set()
        for v in B.support(n):
            ps |= paths_of(B.atoms[v])
        ps.add(('root',))
        r = 1
        for p in sorted(closure(ps), key=repr):
            r = B.AND(r, self.of(p)[which])
        return r


def closure(ps):
    out = set()
    for p in ps:
        while True:
            out.add(p)
            if p[0] == 'root':
                break
            p = p[1]
    return out


def paths_of(t, acc=None):
    acc = set() if acc is None else acc
    if isinstance(t, (tuple, list)):
        if t and t[0] in ('mem', 'elem') and len(t) == 3 and isinstance(t[1], tuple) or t == ('root',):
            acc.add(t)
        for x in t:
            paths_of(x, acc)
    return acc


def going(C, I):
    """What says that a loop that was left early had not come to its end: variable -> value."""
    if getattr(I, '_going', None) is None:
        I._going = {}
        B, g = C.B, C.g
        for l in g.loops:
            if not l.trip_edge:
                continue
            n = C.cb(B.NOT(g.edge_local(*l.trip_edge)))
            for n in (n, g.rename(('b', n), {('iv', l.id): ('kx', l.id)})[1]):
                vs = B.support(n)
                if len(vs) == 1:
                    v = next(iter(vs))
                    if any(x in (('iv', l.id), ('kx', l.id)) for x in atoms_in(B.atoms[v])):
                        I._going[unversioned(B.atoms[v])] = 1 if n == B.var(B.atoms[v]) else 0
    return I._going


def unversioned(x):
    """The same in any state of memory."""
    if not isinstance(x, tuple):
        return x
    if x and x[0] == 'ldv':
        return ('ld', x[1], unversioned(x[2]))
    if x and x[0] == 'p':
        return ('p', x[1], tuple(sorted(((tuple(sorted((unversioned(y) for y in k), key=repr)), c) for k, c in x[2]), key=repr)))
    return tuple(unversioned(y) for y in x)


def atoms_in(x):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str):
            yield x
        for y in x:
            yield from atoms_in(y)


def possible(C, I, f, st):
    """Condition without what is about sizes of containers that can have any size, or None."""
    B = C.B
    go = going(C, I)
    seen = set()
    names = {n for n, _ in finds(C, I, f)}
    for v in sorted(B.support(f)):
        a = B.atoms[v]
        if v in names:
            # a name may or may not be in another format
            f = B.OR(B.restrict(f, v, 0), B.restrict(f, v, 1))
            continue
        k = unversioned(a)
        if k in go:
            f = B.restrict(f, v, go[k])
            continue
        if a[0] == 'ltc' and isinstance(a[2], int):
            x = I.extent(a[1])
            if x is None or x in seen or a[2] < 2:
                continue
            seen.add(x)
            f = B.OR(B.restrict(f, v, 0), B.restrict(f, v, 1))
    return f


def strange(C, n):
    """Part of a condition that is not about the document."""
    B = C.B

    def nested(x):
        if isinstance(x, tuple):
            if x and x[0] in ('ite', 'ld', 'ldv'):
                return True
            return any(nested(y) for y in x)
        return False

    def fine(a):
        if a[0] in ('eq', 'ltc', 'lt', 'slt', 'bool', 'sltc') and nested(a[1:]):
            return False
        if a[0] == 'sym':
            return True
        if a[0] in ('eq', 'ltc', 'lt', 'slt', 'bool', 'sltc'):
            for t in a[1:]:
                if not isinstance(t, tuple):
                    continue
                for x in atoms_of(t):
                    if x[0] in ('ld', 'ldv', 'exitv', 'kx', 'phi', 'undef'):
                        return False
                    if x[0] == 'call' and not re.match(r'vfc::(\w+FromName|VertexFormat::appendElement)\(', x[1]):
                        return False
            return True
        return False
    for v in B.support(n):
        if not fine(B.atoms[v]):
            return show(('b', B.var(B.atoms[v])), B)[:120]
    return ''


def c_t04(ws, r):
    C = Config(ws)
    if len(C.doc) != 1:
        raise AnalysisError('no single document is parsed')
    I = Interp(C)
    V = Valid(C, I)
    B, g, fn = C.B, C.g, C.g.fn
    cf = I.cf
    this = ('arg', 0)
    st = State()
    for n in ('m_vertexFormat', 'm_vertexStreams', 'm_transforms'):
        st.cont[(this, cf[n]['off'])] = U
    _, _, rets = I.region(None, fn.entry, st, 1)
    r.count('abstract states of blocks', I.steps)

    def feasible(c):
        return sat(C, c)

    def judge(rule, inst, c, ok, st, i, what):
        """c: condition of the path, which must imply ok."""
        f = B.AND(c, B.NOT(ok))
        if feasible(f) == 0:
            return r.ok(rule, inst)
        s = strange(C, f)
        if s and not st.imp:
            f2 = possible(C, I, f, st)
            if feasible(f2) != 0 and not strange(C, f2):
                f, s = f2, ''
        if s or st.imp:
            return r.und(rule, inst, 'depends on ' + (s or 'the contents of a container'), i.where())
        r.bad(rule, inst, what + ' when ' + lacking(C, f), i.where())

    # ---- the result
    done = {}
    for b, ss in rets.items():
        t = fn.term(b)
        for st, c in ss.values():
            k = I.cond(t.ops[0], st, None) if t.ops else 0
            for val, cc in ((1, B.AND(c, k)), (0, B.AND(c, B.NOT(k)))):
                if feasible(cc) == 0:
                    continue
                r.count('states at the end')
                inst = 'load returns %s' % ('true' if val else 'false')
                if val:
                    judge('explained', inst, cc, 0 if st.rep else 1, st, t, 'after an error was reported')
                    if not st.rep:
                        done.setdefault(st.key(), [st, 0, t])[1] = B.OR(done.get(st.key(), [0, 0])[1], cc)
                else:
                    judge('explained', inst, cc, 1 if st.rep else 0, st, t, 'without an error being reported')
    if not done:
        r.und('accepted', 'root', 'no accepting state found')
    # ---- accepted
    root = ('root',)
    mem = lambda v, n: ('mem', v, n)

    def holds(v, c, st, i):
        must = V.of(v)[0]
        judge('accepted', 'document' if v == root else vname(v), c, must, st, i, 'accepted')

    def early(st, c, i):
        for k, e in st.env.items():
            if k[0] == 'brk':
                l = next(x for x in g.loops if x.id == k[1])
                judge('all-elements', vname(('elem', I.array_of(l), A(64, ('iv', l.id)))), c, 0, st, fn.term(e[0]),
                      'the rest is ignored without an error, where ')
    for st, c, t in done.values():
        early(st, c, t)
        holds(root, c, st, t)
        for n, v in (('m_vertexFormat', mem(root, 'vertexFormat')), ('m_vertexStreams', mem(root, 'vertexStreams')),
                     ('m_transforms', mem(root, 'vertexTransforms'))):
            s = I.get((this, cf[n]['off']), st) or U
            need = V.found(v)
            if n == 'm_transforms':
                # nothing without the member, and what was read from it otherwise
                if s[0] == 'E':
                    okc = B.NOT(need)
                    for a in (V.nonempty(v), V.is_('Array', v)):
                        okc = B.OR(okc, B.NOT(a))
                    judge('settings', n, c, okc, st, t, 'stays empty')
                    continue
                if s[0] == 'U' and not B.AND(c, B.NOT(need)) == 0 or s[0] == 'N' and s[1] == ('unknown',):
                    r.bad('settings', n, 'may still hold what was loaded before', t.where())
                    continue
            if s[0] == 'N' and s[1] == v:
                r.ok('settings', n)
            elif s[0] == 'E':
                r.bad('settings', n, 'is empty after a successful load', t.where())
            elif s[0] == 'N' and s[1] not in (None, ('unknown',)):
                r.bad('settings', n, 'holds what was read from %s' % vname(s[1]), t.where())
            else:
                r.und('settings', n, 'contents are not known', t.where())
    # ---- elements
    seen = set()
    for kind, i, st, c, data in I.events:
        if kind == 'latch':
            l, q = data
            v = ('elem', q, A(64, ('iv', l.id)))
            if st.rep:
                continue
            inst = vname(v)
            early(st, c, i)
            holds(v, c, st, i)
            k = V.kind(v)
            if k is None:
                continue
            n = st.env.get(('app', q), 0)
            if feasible(c) != 0:
                if n == 1:
                    r.ok('all-elements', inst)
                elif n == 0:
                    judge('all-elements', inst, c, 0, st, i, 'is not added to the result, where ')
                else:
                    judge('all-elements', inst, c, 0, st, i, 'is added more than once, where ')
            if k in ('format', 'stream') and V.kind(q) in ('formats', 'streams'):
                content(C, I, V, r, st, c, q, v, k, l, i)
    # ---- rejected
    for kind, i, st, c, data in I.events:
        if kind != 'report':
            continue
        r.count('errors reported')
        f = B.AND(c, V.all(c, 1))
        inst = 'error at %s' % i.loc()
        if feasible(f) == 0:
            r.ok('rejected', 'error')
            continue
        u = unique(C, I, f)
        if u:
            r.put(u[0], 'rejected', 'error', u[1], i.where())
            continue
        s = strange(C, f)
        if s or st.imp:
            r.und('rejected', 'error', 'depends on ' + (s or 'the contents of a container'), i.where())
        else:
            r.bad('rejected', 'error', 'reported for a valid document: ' + positive(C, f), i.where())
    scalars(C, I, V, r)
    append_args(C, I, V, r)
    wrappers(ws, r)
    compared(C, I, r)
    for f, v in sorted(V.bad, key=repr):
        r.bad('settings', vname(v), 'is never looked up as %s' % f)
    r.need('explained', 10)
    r.need('accepted', 6)
    r.need('rejected', 25)
    r.need('settings', 9)


def sat(C, c):
    """The part of a condition that is possible."""
    B = C.B
    c = B.AND(c, C.axioms(c)) if c else 0
    return B.AND(c, C.g.axioms(c)) if c else 0


def lacking(C, f):
    """Readable example of a condition."""
    return positive(C, f)


def positive(C, f):
    B = C.B
    f2 = sat(C, f) or f
    out = []
    for a, val in (B.cube(f2) or []):
        n = atomname(C, a)
        out.append((-n.count('['), -n.count('.'), len(out), ('' if val else 'not ') + n))
    out.sort()
    return ', '.join(x[-1] for x in out[:6]) + (', ...' if len(out) > 6 else '')


def atomname(C, a):
    if a[0] == 'sym':
        if a[1] == 'is':
            return '%s is %s' % (vname(a[3]), a[2])
        if a[1] == 'found':
            return '%s.%s exists' % (vname(a[2]), a[3])
        if a[1] in ('ieq', 'same'):
            return '%s is "%s"' % (vname(a[2][2]), a[3])
        if a[1] in ('iprefix', 'prefix'):
            return '%s begins with "%s"' % (vname(a[2][2]), a[3])
    return show(('b', C.B.var(a)), C.B)[:100]


def content(C, I, V, r, st, c, q, v, k, l, i):
    """What was added for an element, at the end of its iteration."""
    B = C.B
    hold = [s for s in st.cont.values() if s[0] == 'N' and s[1] == q and s[2]]
    if len(hold) != 1:
        return r.und('settings', vname(v), '%d containers hold it' % len(hold), i.where())
    last = dict(hold[0][2])
    want = v if k == 'format' else ('mem', v, 'vertexFormat')
    s = last.get(I.sf['vertexFormat']['off'] if k == 'stream' else 0, U)
    if s[0] == 'N' and s[1] == want:
        r.ok('settings', vname(want))
    elif s[0] == 'E' or s[0] == 'N' and s[1] != ('unknown',):
        r.bad('settings', vname(want), 'holds %s' % ('nothing' if s[0] == 'E' else 'what was read from ' + vname(s[1])), i.where())
    else:
        r.und('settings', vname(want), 'contents are not known', i.where())
    if k != 'stream':
        return

    def text(n, cond, inst):
        x = last.get(I.sf[n]['off'], U)
        src = A(64, ('sym', 'GetString', ('mem', v, n)))
        if C.B.AND(c, cond) == 0:
            return
        if x == ('S', src):
            r.ok('settings', inst)
        elif x[0] in 'ES':
            r.bad('settings', inst, 'is set to %s' % ('nothing' if x[0] == 'E' else show(x[1])), i.where())
        else:
            r.und('settings', inst, 'value is not known', i.where())
    text('vertexData', 1, vname(v) + '.vertexData')
    ok, none = V.indextype(v)
    text('indexData', B.NOT(none), vname(v) + '.indexData')


def finds(C, I, f):
    """Atoms that tell that a name was found in a vertex format."""
    B = C.B
    out = []
    for n in B.support(f):
        a = B.atoms[n]
        if a[0] == 'eq' and a[2] == 0 and a[1][0] == 'p' and len(a[1][2]) == 2:
            ks = [k[0] for k, _ in a[1][2] if len(k) == 1 and k[0][0] == 'call']
            ks.sort(key=lambda x: 'find(' not in x[1])
            if len(ks) == 2 and 'VertexFormat::find(' in ks[0][1] and re.search(r'VertexFormat::c?end\(', ks[1][1]) and \
                    ks[0][2][0] == ks[1][2][0]:
                out.append((n, ks[0]))
    return out


def others(C, I, f):
    """The result of find() in one format is compared with the end of another."""
    B = C.B
    for n in B.support(f):
        a = B.atoms[n]
        if a[0] == 'eq' and a[2] == 0 and a[1][0] == 'p':
            ks = [k[0] for k, _ in a[1][2] if len(k) == 1 and k[0][0] == 'call']
            ks.sort(key=lambda x: 'find(' not in x[1])
            if len(ks) == 2 and 'VertexFormat::find(' in ks[0][1] and re.search(r'VertexFormat::c?end\(', ks[1][1]):
                if ks[0][2][0][0] != 'p' or ks[1][2][0][0] != 'p':
                    continue
                d = padd(ks[0][2][0], ks[1][2][0], -1)
                if d[0] == 'p' and d[2] and all(all(y[0] == 'iv' for y in k) for k, _ in d[2]):
                    return 'the result of looking for a name in one format is compared with the end of another'
    return None


def unique(C, I, f):
    """An error because of a name that another format has."""
    B = C.B
    o = others(C, I, f)
    if o:
        return ('violation', o)
    for n, a in finds(C, I, f):
        if B.AND(f, B.var(B.atoms[n])) == 0:
            return ('ok', '')
        return ('violation', 'a name counts as not unique although it is not found in the other format')
    return None


def later(C, I, l, t):
    """Address t starts at one that may not be the first of its container, and goes on from there."""
    g, B = C.g, C.B
    step = pmul(A(64, ('iv', l.id)), K(64, 1))
    for c, x in (t[1] if t[0] == 'ite' else [(1, t)]):
        if x[0] != 'p':
            continue
        for k, n in x[2]:
            if len(k) != 1 or n != 1 or k[0][0] not in ('ld', 'ldv'):
                continue
            sz = I.esize.get(I.where(k[0][2]))
            d = padd(x, A(64, k[0]), -1)
            if not sz:
                continue
            d = padd(d, pmul(step, K(64, sz)), -1)
            if d[0] != 'p' or ('iv', l.id) in [y for m, _ in d[2] for y in m]:
                continue
            div = [m[0] for m, e in d[2] if len(m) == 1 and m[0][0] == 'div' and e == sz]
            if len(div) == 1 and padd(d, pmul(A(64, div[0]), K(64, sz)), -1) == K(64, -2*sz & (1 << 64) - 1):
                # size - 2 with at least 2, is it always the first?
                cc = g.rename(('b', c), {div[0]: ('sym', 'size', 0)})[1]
                s, _ = C.F.c.beq(B.AND(cc, g.cmp('ult', K(64, 2), A(64, ('sym', 'size', 0)))), 0)
                if s == 'violation':
                    return 'size - 2'
            elif sconst(d) is not None and sconst(d) > 0 and sconst(d) % sz == 0 and t[0] == 'p':
                return '%d' % (sconst(d)//sz)
    return None


def compared(C, I, r):
    """Names of elements in different streams are compared."""
    g, B, fn = C.g, C.B, C.g.fn
    calls = [i for i in C.calls if 'VertexFormat::find(' in i['dem']]
    if not calls:
        other = [i for i in C.calls if re.search(r'std::(unordered_)?(set|map)<|operator==<char|::compare\(|^strcmp', i['dem'])
                 or 'VertexFormat::' in i['dem'] and 'find' in i['dem']]
        if other:
            r.und('unique', 'names', 'compared in another way', other[0].where())
        else:
            r.bad('unique', 'names', 'names of elements in different formats are never compared', retloc(g))
        return
    for i in calls:
        l1 = g.loop_of[i.bb]
        l2 = l1.parent if l1 is not None else None
        a = I.args(i)
        if l2 is None or l1.trip is None or l2.trip is None:
            at = later(C, I, l1, a[0]) if l1 is not None else None
            if at:
                r.bad('unique', 'formats', 'the comparison starts at format %s' % at, i.where())
            else:
                r.und('unique', 'names', 'not a comparison of all pairs', i.where())
            continue
        # the formats before the last one
        iv1, iv2 = A(64, ('iv', l1.id)), A(64, ('iv', l2.id))
        x = None
        for k, c in a[0][2]:
            if len(k) == 1 and k[0][0] in ('ld', 'ldv'):
                x = (I.where(k[0][2]), padd(a[0], A(64, k[0]), -1))
        t1 = C.cv(l1.trip)
        w = I.extent(padd(t1, K(64, 1))) if t1[0] == 'p' else None
        w0 = I.extent(t1) if t1[0] == 'p' else None
        sz = I.esize.get(x[0]) if x else None
        if x is None or sz is None:
            r.und('unique', 'formats', 'container is not known', i.where())
        elif x[1] != pmul(iv1, K(64, sz)):
            d = padd(x[1], pmul(iv1, K(64, sz)), -1)
            if sconst(d) is not None:
                r.bad('unique', 'formats', 'comparison starts at format %d' % (sconst(d)//sz), i.where())
            else:
                r.und('unique', 'formats', 'index %s' % show(x[1]), i.where())
        elif w == x[0]:
            r.ok('unique', 'formats')
        else:
            n = None
            for d in (-4, -3, -2, 2, 3, 4):
                if t1[0] == 'p' and I.extent(padd(t1, K(64, d & ((1 << 64) - 1)))) == x[0]:
                    n = d
            if n is not None and n > 1:
                r.bad('unique', 'formats', 'the last %d formats are not compared' % n, i.where())
            elif w0 == x[0]:
                r.und('unique', 'formats', 'also compared with itself', i.where())
            else:
                r.und('unique', 'formats', 'number of formats compared: %s' % show(t1)[:100], i.where())
        # every element of the last one
        nm = atom_of(a[1])
        nm = nm[2][0] if nm is not None and nm[0] == 'call' and IS_CSTR(nm[1]) else None
        ok = None
        if nm is not None and nm[0] == 'p':
            bs = [k[0] for k, _ in nm[2] if len(k) == 1 and k[0][0] == 'call' and re.search(r'VertexFormat::c?begin\(', k[0][1])]
            if bs:
                rest = padd(nm, A(64, bs[0]), -1)
                esz = C.m.fields('vfc::VertexElement') if 'vfc::VertexElement' in C.m.structs else None
                n = -(-max(f['off'] + f['size'] for f in esz.values())//8)*8 if esz else 40
                of = esz['name']['off'] if esz else 0
                t2 = C.cv(l2.trip)
                whole = any(len(k) == 1 and k[0][0] in ('div', 'sdiv') and len(t2[2]) == 1 and
                            re.search(r'VertexFormat::c?end\(', show(k[0][1])) or 'end(' in show(A(64, k[0])) for k, _ in t2[2]) \
                    if t2[0] == 'p' else False
                place = I.where(bs[0][2][0])
                if place is None or place[0] != 'last':
                    r.und('unique', 'elements', 'of %s' % show(bs[0][2][0])[:80], i.where())
                elif rest == padd(pmul(iv2, K(64, n)), K(64, of)) and len(t2[2]) == 1 and whole:
                    r.ok('unique', 'elements')
                elif sconst(padd(rest, pmul(iv2, K(64, n)), -1)) not in (None, of):
                    r.bad('unique', 'elements', 'comparison starts at another element', i.where())
                else:
                    r.und('unique', 'elements', 'number of elements compared: %s' % show(t2)[:100], i.where())
                ok = True
        if ok is None:
            r.und('unique', 'elements', 'name %s' % show(a[1])[:100], i.where())
        # the next pair is only looked at when the name was not found
        nxt = 0
        for u in fn.pred[l1.header]:
            if u in l1.blocks:
                nxt = B.OR(nxt, C.cb(g.edge(u, l1.header, l1)))
        hit = finds(C, I, nxt)
        if nxt == 1:
            lv = [e for e in l1.exits if e != l1.trip_edge]
            r.bad('unique', 'result', 'whether a name was found is ignored', i.where()) if not lv else \
                r.und('unique', 'result', 'condition is not understood', i.where())
        elif len(hit) != 1:
            o = others(C, I, nxt)
            if o:
                r.bad('unique', 'result', o, i.where())
            else:
                r.und('unique', 'result', 'condition is not understood', i.where())
        else:
            eq = B.var(B.atoms[hit[0][0]])
            s = 'ok' if B.AND(nxt, B.NOT(eq)) == 0 else ('undecided' if len(B.support(nxt)) > 1 else 'violation')
            r.put(s, 'unique', 'result', '' if s == 'ok' else 'goes on although the name was found', i.where())


def successes(C):
    """Where the result true comes from: (instruction, condition)."""
    g, fn, B = C.g, C.g.fn, C.B
    out, seen = [], set()

    def go(o, i):
        if o[0] == 'i':
            if int(o[2]) & 1:
                out.append((i, C.cb(g.full(i.bb))))
            return
        j = fn.insts.get(o[1]) if o[0] == 'v' else None
        if j is not None and j.op == 'phi':
            if j.id in seen:
                return
            seen.add(j.id)
            for p, b in j['in']:
                go(p, fn.term(b))
            return
        c = C.cb(g.asbool(g.term(o, g.loop_of[i.bb])))
        out.append((i, B.AND(C.cb(g.full(i.bb)), c)))
    for b in fn.blocks:
        t = fn.term(b)
        if t.op == 'ret' and t.ops:
            go(t.ops[0], t)
    return out


def enumterm(C, V, v, table, w=8, none=0):
    """ite over the names that a string may have."""
    alts, used = [], 0
    for n, k in table:
        c = V.ieq(v, n)
        alts.append((C.B.AND(c, C.B.NOT(used)), K(w, k)))
        used = C.B.OR(used, c)
    return alts, used


def oneof(C, V, v, names):
    """A string cannot equal two names."""
    B = C.B
    r = 1
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            r = B.AND(r, B.NOT(B.AND(V.ieq(v, a), V.ieq(v, b))))
    return r


def scalars(C, I, V, r):
    g, B, m = C.g, C.B, C.m
    root = ('root',)
    it = m.enum('vfc::IndexType')
    tt = m.enum('vfc::Converter::Transform')
    pt = m.enum('vfc::PrimitiveType')
    mem = lambda v, n: ('mem', v, n)

    def idx(v):
        v = mem(v, 'indexType')
        none = B.OR(B.NOT(V.found(v)), V.is_('Null', v))
        return g.mkite([(none, K(8, it['NoIndices'])), (B.AND(B.NOT(none), V.ieq(v, 'uint16')), K(8, it['UInt16'])),
                        (B.AND(B.NOT(none), B.NOT(V.ieq(v, 'uint16'))), K(8, it['UInt32']))])

    def compare(inst, got, spec, under, i, st=None):
        under = B.AND(under, C.axioms(under))
        t = C.cv(got)
        bad = None
        if t[0] == 'ite':
            rest = under
            for c, _ in t[1]:
                rest = B.AND(rest, B.NOT(c))
            rest = sat(C, I.emptiness(rest, st) if st is not None else rest)
            if rest != 0 and not strange(C, rest):
                return r.bad('settings', inst, 'is not set when %s' % positive(C, rest), i.where())
        for c, x in (t[1] if t[0] == 'ite' else ((1, t),)):
            for c2, y in (spec[1] if spec[0] == 'ite' else ((1, spec),)):
                if x == y:
                    continue
                f = B.AND(B.AND(c, c2), under)
                if st is not None:
                    f = I.emptiness(f, st)
                f = sat(C, f)
                if f == 0:
                    continue
                bad = bad or (f, x, y)
                old = atom_of(x)
                if old is not None and old[0] == 'ld' and patom(root_off(old[2])[0]) == ('arg', 0) and not strange(C, f) \
                        and sconst(y) is not None:
                    return r.bad('settings', inst, 'keeps what it was before when %s' % positive(C, f), i.where())
                if not strange(C, f) and not any(a[0] in ('ld', 'ldv') for a in atoms_of(x)):
                    return r.bad('settings', inst, 'is %s instead of %s when %s' % (show(x), show(y), positive(C, f)), i.where())
        if bad is None:
            return r.ok('settings', inst)
        r.und('settings', inst, 'is %s instead of %s depending on %s' % (show(bad[1])[:60], show(bad[2])[:60],
                                                                         strange(C, bad[0])), i.where())
    p = mem(root, 'primitiveType')
    none = B.OR(B.NOT(V.found(p)), V.is_('Null', p))
    pn = V.names.get(('primitiveType', p))
    for i, c in successes(C):
        r.count('successful results')
        val = lambda n, ty: g.value_before(padd(A(64, ('arg', 0)), K(64, I.cf[n]['off'])), ty, i, g.loop_of[i.bb])
        valid = V.of(root)[0]
        valid = B.AND(valid, oneof(C, V, mem(root, 'indexType'), ['uint16', 'uint32']))
        compare('indexType', val('m_indexType', 'i8'), idx(root), valid, i)
        if pn is not None:
            tl = K(pn[1], pt['TriangleList'])
            compare('primitiveType', val('m_primitiveType', 'i8'), g.mkite([(none, tl), (B.NOT(none), pn)]), valid, i)
            patch = B.AND(B.NOT(none), V.named('primitiveType', p, 'PatchList'))
            pp = A(32, ('sym', 'GetInt', mem(root, 'patchPoints')))
            compare('patchPoints', val('m_patchPoints', 'i32'), pp, B.AND(valid, patch), i)
    # the index type of a stream, at the end of its iteration
    for kind, i, st, c, data in I.events:
        if kind != 'latch' or st.rep or V.kind(data[1]) != 'streams':
            continue
        v = ('elem', data[1], A(64, ('iv', data[0].id)))
        ad = set()
        for j in C.calls:
            if g.loop_of[j.bb] is data[0]:
                for a in I.args(j):
                    w = I.where(a)
                    if w is not None and w[0] == 'last' and a[0] == 'p':
                        ad.add(padd(a, K(64, I.sf['indexType']['off'] - w[2])))
        if not ad:
            r.und('settings', vname(v) + '.indexType', 'the stream is not found', i.where())
            continue
        raw = None
        for j in C.calls:
            if g.loop_of[j.bb] is data[0] and raw is None:
                for a, ca in zip(g.args(j), I.args(j)):
                    w = I.where(ca)
                    if w is not None and w[0] == 'last' and a[0] == 'p':
                        raw = padd(a, K(64, I.sf['indexType']['off'] - w[2]))
        got = g.value_before(raw, 'i8', i, g.loop_of[i.bb])
        under = B.AND(V.of(v)[0], oneof(C, V, mem(v, 'indexType'), ['uint16', 'uint32']))
        compare(vname(v) + '.indexType', got, idx(v), B.AND(under, c), i, st)
    # transforms
    names = [('identity', 'Identity'), ('bounds', 'Bounds'), ('unormtosnorm', 'UNormToSNorm'), ('snormtounorm', 'SNormToUNorm')]
    done = set()
    for kind, i, st, c, a in I.events:
        if kind != 'emplace' or i.id in done:
            continue
        done.add(i.id)
        q = I.array_of(g.loop_of[i.bb])
        if V.kind(q) != 'transforms' if q is not None else True:
            r.und('settings', 'transforms', 'added outside of their loop', i.where())
            continue
        v = ('elem', q, A(64, ('iv', g.loop_of[i.bb].id)))
        if I.where(a[0]) != (('arg', 0), I.cf['m_transforms']['off']):
            r.und('settings', vname(v), 'added to %s' % show(a[0])[:60], i.where())
        src = A(64, ('sym', 'GetString', mem(v, 'name')))
        s = I.get(I.where(a[1]), st)
        if s is None:
            t = I.deref(g.args(i)[1], i, 'i64')
            s = ('S', t)
        nm = atom_of(s[1]) if s[0] == 'S' else None
        if s == ('S', src):
            r.ok('settings', vname(v) + '.name')
        elif nm is not None and nm[:2] == ('sym', 'GetString'):
            r.bad('settings', vname(v) + '.name', 'is %s' % vname(nm[2]), i.where())
        else:
            r.und('settings', vname(v) + '.name', 'value is not known', i.where())
        t = g.args(i)[2]
        alts, used = enumterm(C, V, mem(v, 'transform'), [(n, tt[e]) for n, e in names], 32)
        x = g.value_before(t, 'i%d' % (8*_enumsize(C, 'vfc::Converter::Transform')), i, g.loop_of[i.bb])
        w = x[1] if x[0] == 'p' else next((y[1] for _, y in x[1] if y[0] == 'p'), 32) if x[0] == 'ite' else 32
        spec = g.mkite([(cc, K(w, sconst(y))) for cc, y in alts])
        under = B.AND(V.of(v)[0], oneof(C, V, mem(v, 'transform'), [n for n, _ in names]))
        compare(vname(v) + '.transform', x, spec, B.AND(under, C.cb(g.cond(i.bb))), i)


def _enumsize(C, q):
    for s in C.m.structs.values():
        for x in s.get('members', []):
            if x.get('type') == q and x.get('size'):
                return x['size']
    return 4


def append_args(C, I, V, r):
    """Elements are added to a format with their own values."""
    g = C.g
    done = set()
    for kind, i, st, c, a in I.events:
        if kind != 'append' or i.id in done:
            continue
        done.add(i.id)
        q = I.array_of(g.loop_of[i.bb])
        if q is None or V.kind(q) != 'format':
            r.und('settings', 'elements', 'added outside of their loop', i.where())
            continue
        v = ('elem', q, A(64, ('iv', g.loop_of[i.bb].id)))
        s = I.get(I.where(a[1]), st) or U
        src = A(64, ('sym', 'GetString', ('mem', v, 'name')))
        if s == ('S', src):
            r.ok('settings', vname(v) + '.name')
        elif s[0] == 'S' and atom_of(s[1]) is not None and atom_of(s[1])[:2] == ('sym', 'GetString'):
            r.bad('settings', vname(v) + '.name', 'is %s' % vname(atom_of(s[1])[2]), i.where())
        else:
            r.und('settings', vname(v) + '.name', 'value is not known', i.where())
        for k, fnm, n in ((2, 'elementLayout', 'layout'), (3, 'elementType', 'type')):
            x = atom_of(a[k])
            inst = '%s.%s' % (vname(v), n)
            if x is not None and x[0] == 'call' and x[1].startswith('vfc::%sFromName(' % fnm):
                y = atom_of(x[2][0])
                if y == ('sym', 'GetString', ('mem', v, n)):
                    r.ok('settings', inst)
                elif y is not None and y[:2] == ('sym', 'GetString'):
                    r.bad('settings', inst, 'is %s' % vname(y[2]), i.where())
                else:
                    r.und('settings', inst, 'value is not known', i.where())
            elif sconst(a[k]) is not None:
                r.bad('settings', inst, 'is always %d' % sconst(a[k]), i.where())
            else:
                r.und('settings', inst, 'value is not known', i.where())


WRAPPERS = [('file', 'ConfigFile::load(char const*, std::function<void (char const*)> const&)', 2),
            ('stream', 'ConfigFile::load(std::istream&, char const*, std::function<void (char const*)> const&)', 3)]


def wrappers(ws, r):
    """The other overloads of load either report an error and fail or give the result of the one they call."""
    for name, f, ef in WRAPPERS:
        m = tmodule(ws, [('s|' + name, f)], keep=['^std::', '^ConfigFile::load', '^vfc::', '^rapidjson::'])
        F = Fn(m, 's|' + name, pure=PURE)
        F.c.calls = [lambda d: re.search(r'::(is_open|bad|good|fail|eof|operator bool|operator!)\(|^ConfigFile::load', d)]
        g, B = F.g, F.B
        rep, inner, res = 0, 0, None
        ret = F.ret()
        want = 0
        for i in g.fn.all():
            if i.op not in ('call', 'invoke'):
                continue
            d = i['dem']
            a = g.args(i) if 'ConfigFile::load' in d or '::operator()' in d else None
            if d.startswith('std::function<') and '::operator()' in d:
                if a[0] != A(64, ('arg', ef)):
                    r.und('wrappers', name, 'another function is called', i.where())
                rep = B.OR(rep, g.full(i.bb))
            elif 'ConfigFile::load(' in d:
                c = g.full(i.bb)
                inner = B.OR(inner, c)
                want = B.OR(want, B.AND(c, g.asbool(g.value(i.id, g.loop_of[i.bb]))))
                fnm = a[2] if len(a) > 3 else a[-2]
                given = A(64, ('arg', ef - 1))
                r.put('ok' if a[-1] == A(64, ('arg', ef)) else 'undecided', 'wrappers', name + ' errors', 'are reported to %s'
                      % show(a[-1]), i.where())
                if fnm != given:
                    r.und('wrappers', name + ' file name', 'is %s' % show(fnm), i.where())
        if inner == 0:
            if rep == 1:
                r.bad('wrappers', name, 'always reports an error', retloc(g))
            else:
                r.und('wrappers', name, 'does not call another overload')
            continue
        state(r, F, name, inner)
        whole(r, F, m, name)
        putb(r, F, 'wrappers', name + ' result', g.asbool(ret), want)
        both = B.AND(rep, inner)
        putb(r, F, 'wrappers', name + ' error and load', both, 0)
        putb(r, F, 'wrappers', name + ' neither error nor load', B.OR(rep, inner), 1)


GOOD, FAILS = r'::(is_open|good|operator bool)\(', r'::(bad|fail|operator!)\('


def state(r, F, name, inner):
    """The configuration is only left out when the file could not be opened or read."""
    g, B = F.g, F.B
    inst = name + ' is loaded'
    read = any(i.op in ('call', 'invoke') and re.search(r'::(read|get|getline|readsome)\(', i['dem']) and g.loop_of[i.bb] is not None
               for i in g.fn.all())
    for v in B.support(inner):
        a = B.atoms[v]
        t = ' '.join(x[1] for x in atoms_in(a) if x[0] == 'call')
        up, down = re.search(GOOD, t), re.search(FAILS, t)
        if bool(up) == bool(down):
            continue
        one, zero = B.restrict(inner, v, 1), B.restrict(inner, v, 0)
        # is the variable true when the call gives true?
        pos = a[0] not in ('eq', 'ltc')
        yes, no = (one, zero) if pos == bool(up) else (zero, one)
        if B.AND(no, B.NOT(yes)) != 0 and B.AND(yes, B.NOT(no)) == 0:
            return r.bad('wrappers', inst, 'the configuration is loaded only when %s' % ('the file is not open' if 'is_open' in t else
                                                                                         'reading it failed'), retloc(g))
        if no == 0 and read and re.search(r'::(good|operator bool|fail|operator!)\(', t):
            return r.bad('wrappers', inst, 'the configuration is not loaded when the end was reached', retloc(g))
    r.ok('wrappers', inst)


def whole(r, F, m, name):
    pass
