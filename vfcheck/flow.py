"""Path-sensitive typestate interpretation of one function.

States are finite: known values of integers (flags and outcomes of calls), contents of tracked objects and some bits.  The
function is run over all its paths until no new state appears; operations that may fail split the state."""
from .build import AnalysisError
from .terms import *
from .lib import *


def qualified(dem):
    """(class, method, parameters) of a demangled name; class '' for free functions."""
    d = dem
    if d.endswith(' const'):
        d = d[:-6]
    d = re.sub(r'\[abi:\w+\]', '', d)
    d = d.replace('(anonymous namespace)', '{anon}')
    if '(' not in d:
        return '', d, ''
    # parameter list: matching parenthesis of the last ')'
    depth, k = 0, len(d) - 1
    while k >= 0:
        if d[k] == ')':
            depth += 1
        elif d[k] == '(':
            depth -= 1
            if depth == 0:
                break
        k -= 1
    params, name = d[k + 1:-1], d[:k]
    m = re.search(r'(?:^|::|\s)(operator\s*(?:\(\)|\[\]|<<=?|>>=?|<=>|<=|>=|->\*?|<|>|[^<>\s(]+(?:\s?\[\])?))(?=<|$)', name)
    op = None
    m2 = re.search(r'(?:^|::|\s)(operator (?:bool|[\w:]+(?:\s?[*&])*))$', name)
    if m2:
        op, name = m2.group(1), name[:m2.start(1)]
    elif m:
        op, name = m.group(1), name[:m.start(1)]
    # last top level word
    depth, s = 0, 0
    for j, ch in enumerate(name):
        if ch in '<(':
            depth += 1
        elif ch in '>)':
            depth -= 1
        elif ch == ' ' and depth == 0:
            s = j + 1
    q = name[s:]
    parts, depth, last = [], 0, 0
    j = 0
    while j < len(q):
        if q[j] in '<(':
            depth += 1
        elif q[j] in '>)':
            depth -= 1
        elif q[j:j + 2] == '::' and depth == 0:
            parts.append(q[last:j])
            last = j + 2
            j += 1
        j += 1
    parts.append(q[last:])
    if op is not None:
        parts = [p for p in parts if p]
        return '::'.join(parts), op.replace('operator ', 'operator') if op[9:] not in ('bool', 'new', 'delete') else op, params
    meth = parts[-1]
    if '<' in meth and not meth.startswith('<'):
        meth = meth[:meth.index('<')]
    return '::'.join(parts[:-1]), meth, params


def split_params(p):
    out, depth, s = [], 0, 0
    for j, ch in enumerate(p):
        if ch in '<([{':
            depth += 1
        elif ch in '>)]}':
            depth -= 1
        elif ch == ',' and depth == 0:
            out.append(p[s:j].strip())
            s = j + 1
    x = p[s:].strip()
    return out + [x] if x else out


class St:
    __slots__ = ('env', 'obj', 'bit', '_k')

    def __init__(self, env=(), obj=(), bit=()):
        self.env, self.obj, self.bit = dict(env), dict(obj), dict(bit)
        self._k = None

    def copy(self):
        return St(self.env, self.obj, self.bit)

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.env.items()), frozenset(self.obj.items()), frozenset(self.bit.items()))
        return self._k


class Flow:
    limit = 40000
    eager = False

    def __init__(self, F):
        self.F, self.g, self.B, self.fn, self.m = F, F.g, F.B, F.g.fn, F.m
        self.header = {l.header: l for l in self.g.loops}
        self.steps = 0
        self.results = []
        self._args = {}
        self._terms = {}
        self._q = {}
        self.liveness()

    # ------------------------------------------------------------ program
    def liveness(self):
        fn = self.fn
        use, deff, puse = {}, {}, {}
        vals = {i.id for i in fn.all() if i.get('ty') not in (None, 'void')}

        def operands(i):
            for o in list(i.ops) + list(i.d.get('args', [])) + [i.d.get('base', ['']), i.d.get('target', [''])] + \
                    [x for x, _ in i.d.get('idx', [])]:
                if isinstance(o, list) and o and o[0] == 'v' and o[1] in vals:
                    yield o[1]
        for b in fn.blocks:
            u, d = set(), set()
            for i in fn.bb[b]:
                if i.op == 'phi':
                    for o, p in i['in']:
                        if o[0] == 'v' and o[1] in vals:
                            puse.setdefault((p, b), set()).add(o[1])
                else:
                    u |= {x for x in operands(i) if x not in d}
                d.add(i.id)
            use[b], deff[b] = u, d
        live = {b: set() for b in fn.blocks}
        ch = True
        order = list(reversed(fn.rpo()))
        while ch:
            ch = False
            for b in order:
                n = set()
                for s in fn.succ[b]:
                    n |= live[s] | puse.get((b, s), set())
                n = use[b] | (n - deff[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live

    def term(self, o, i):
        k = (repr(o), self.g.loop_of[i.bb])
        if k not in self._terms:
            self._terms[k] = self.canon(self.g.term(o, self.g.loop_of[i.bb]))
        return self._terms[k]

    def canon(self, t):
        return t

    def args(self, i):
        if i.id not in self._args:
            self._args[i.id] = [self.term(a, i) for a in i['args']]
        return self._args[i.id]

    def q(self, i):
        d = i['dem']
        if d not in self._q:
            self._q[d] = qualified(d)
        return self._q[d]

    def inst(self, o):
        return self.fn.insts.get(o[1]) if o and o[0] == 'v' else None

    def root(self, o):
        """Object that an operand points into, through members and results that return it."""
        seen = 0
        while seen < 50:
            seen += 1
            if o[0] == 'g':
                return ('g', o[1])
            i = self.inst(o)
            if i is None:
                return ('arg', self.g.argi[o[1]]) if o[0] == 'v' and o[1] in self.g.argi else None
            if i.op == 'alloca':
                return ('alloca', i.id)
            if i.op == 'getelementptr':
                o = i['base']
            elif i.op in ('call', 'invoke') and self.returns_self(i):
                o = i['args'][0]
            else:
                return None
        return None

    def returns_self(self, i):
        return False

    # ------------------------------------------------------------ values
    def known(self, o, st):
        if o[0] == 'i':
            return int(o[2]) & ((1 << int(o[1])) - 1)
        if o[0] == 'n':
            return 0
        if o[0] in ('g', 'fn'):
            return 'nz'
        if o[0] == 'v':
            return st.env.get(o[1])
        return None

    def compute(self, i, st):
        """Value of an instruction, if it follows from what is known."""
        k = i.op
        if k == 'alloca':
            return None
        if k in ('zext', 'freeze', 'ptrtoint', 'bitcast', 'inttoptr'):
            return self.known(i.ops[0], st)
        if k == 'sext':
            x = self.known(i.ops[0], st)
            w, w2 = width(i.get('oty', '')) or 0, width(i['ty'])
            if isinstance(x, int) and w and w2:
                return (x - (1 << w) if x >> (w - 1) else x) & ((1 << w2) - 1)
            return x
        if k == 'trunc':
            x = self.known(i.ops[0], st)
            w = width(i['ty'])
            return x & ((1 << w) - 1) if isinstance(x, int) and w else None
        if k == 'getelementptr':
            x = self.known(i['base'], st)
            return 'nz' if x == 'nz' or i['base'][0] == 'v' and self.nonnull(i['base']) else None
        if k == 'load':
            return self.load(i, st)
        if k == 'icmp':
            a, b = self.known(i.ops[0], st), self.known(i.ops[1], st)
            if a is None and self.nonnull(i.ops[0]):
                a = 'nz'
            if b is None and self.nonnull(i.ops[1]):
                b = 'nz'
            if a is None or b is None:
                return None
            p = i['pred']
            if a == 'nz' or b == 'nz':
                if p in ('eq', 'ne') and 0 in (a, b):
                    return int(p == 'ne')
                if p == 'ugt' and b == 0 or p == 'ult' and a == 0:
                    return 1
                if p == 'ule' and b == 0 or p == 'uge' and a == 0 or p == 'ult' and b == 1:
                    return 0
                if p == 'uge' and b == 1:
                    return 1
                return None
            w = width(i.get('oty', '')) or 64
            sg = lambda x: x - (1 << w) if x >> (w - 1) else x
            if p[0] == 's':
                a, b = sg(a), sg(b)
                p = 'u' + p[1:]
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ugt': a > b, 'ule': a <= b, 'uge': a >= b}[p])
        if k in ('and', 'or', 'xor'):
            a, b = self.known(i.ops[0], st), self.known(i.ops[1], st)
            if k == 'and' and 0 in (a, b):
                return 0
            if k == 'or' and i['ty'] == 'i1' and 1 in (a, b):
                return 1
            if isinstance(a, int) and isinstance(b, int):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b}[k]
            if k == 'or' and 'nz' in (a, b):
                return 'nz'
            return None
        if k == 'select':
            c = self.known(i.ops[0], st)
            if c is None:
                a, b = self.known(i.ops[1], st), self.known(i.ops[2], st)
                return a if a is not None and a == b else None
            return self.known(i.ops[1 if c else 2], st)
        return None

    def nonnull(self, o):
        i = self.inst(o)
        return o[0] in ('g', 'fn') or i is not None and (i.op == 'alloca' or i.op == 'getelementptr' and self.nonnull(i['base']) or
                                                         i.op in ('call', 'invoke') and self.call_nonnull(i))

    def call_nonnull(self, i):
        return False

    def load(self, i, st):
        return None

    # ------------------------------------------------------------ conditions
    def assume(self, o, val, st):
        """States in which the i1 operand has the value."""
        k = self.known(o, st)
        if k is not None and k != 'nz':
            return [st] if bool(k) == bool(val) else []
        i = self.inst(o)
        if i is None:
            return [st]
        k = self.compute(i, st) if i.op not in ('call', 'invoke', 'phi', 'load') else None
        if k is not None and k != 'nz':
            return [st] if bool(k) == bool(val) else []
        one = lambda x: x[0] == 'i' and int(x[2]) & 1
        if i['ty'] == 'i1' and i.op in ('and', 'or', 'select'):
            a, b = i.ops[0], i.ops[1]
            if i.op == 'select':
                if i.ops[2][0] == 'i' and not one(i.ops[2]):
                    conj = True
                elif i.ops[1][0] == 'i' and one(i.ops[1]):
                    conj, b = False, i.ops[2]
                else:
                    out = []
                    for s in self.assume(a, 1, st.copy()):
                        out += self.assume(i.ops[1], val, s)
                    for s in self.assume(a, 0, st.copy()):
                        out += self.assume(i.ops[2], val, s)
                    return self.mark(out, i, val)
            else:
                conj = i.op == 'and'
            out = []
            for s in self.assume(a, 1 if conj else 0, st.copy()):
                out += self.assume(b, val, s)
            if bool(val) != conj:
                out += self.assume(a, val, st.copy())
            return self.mark(out, i, val)
        if i.op == 'xor' and i['ty'] == 'i1' and (one(i.ops[1]) or one(i.ops[0])):
            return self.mark(self.assume(i.ops[0] if one(i.ops[1]) else i.ops[1], 1 - val, st), i, val)
        if i.op in ('freeze', 'trunc', 'zext') and self.inst(i.ops[0]) is not None and width(self.inst(i.ops[0])['ty'] or '') == 1:
            return self.mark(self.assume(i.ops[0], val, st), i, val)
        if i.op in ('trunc',) and self.inst(i.ops[0]) is not None and self.inst(i.ops[0]).op == 'zext':
            return self.mark(self.assume(self.inst(i.ops[0]).ops[0], val, st), i, val)
        if i.op == 'icmp' and i['pred'] in ('eq', 'ne') and i.ops[1][0] == 'i' and int(i.ops[1][2]) in (0, 1):
            # comparison of a flag
            j = self.inst(i.ops[0])
            while j is not None and j.op in ('zext', 'freeze'):
                j2 = self.inst(j.ops[0])
                if j2 is None:
                    break
                if j2['ty'] == 'i1':
                    v = int(i.ops[1][2])
                    want = v if (i['pred'] == 'eq') == bool(val) else 1 - v
                    return self.mark(self.assume(['v', j2.id], want, st), i, val)
                j = j2
            if j is not None and j.op == 'select' and all(x[0] in 'i' for x in j.ops[1:3]):
                out = []
                for c in (1, 0):
                    x = int(j.ops[1 if c else 2][2])
                    if ((x == int(i.ops[1][2])) == (i['pred'] == 'eq')) == bool(val):
                        out += self.assume(j.ops[0], c, st.copy())
                return self.mark(out, i, val)
        if i.op == 'icmp' and i['pred'] in ('eq', 'ne') and i.ops[1][0] == 'n':
            j = self.inst(i.ops[0])
            if j is not None and j.op == 'select':
                out = []
                for c in (1, 0):
                    x = j.ops[1 if c else 2]
                    k = 0 if x[0] == 'n' else self.known(x, st)
                    if k is None and self.nonnull(x):
                        k = 'nz'
                    if k is None:
                        break
                    if ((k == 0) == (i['pred'] == 'eq')) == bool(val):
                        for s in self.assume(j.ops[0], c, st.copy()):
                            s.env[j.id] = k
                            s._k = None
                            out.append(s)
                else:
                    return self.mark(out, i, val)
        return self.mark(self.leaf(i, int(val), st), i, val)

    def mark(self, sts, i, val):
        for s in sts:
            s.env[i.id] = int(val)
            s._k = None
        return sts

    def leaf(self, i, val, st):
        """States in which the condition i, about which nothing is known, has the value."""
        return [st]

    # ------------------------------------------------------------ flow
    def run(self, st0):
        fn = self.fn
        done = {b: set() for b in fn.blocks}
        work = {fn.entry: {st0.key(): st0}}
        num = {b: k for k, b in enumerate(fn.rpo())}
        import heapq
        heap = [num[fn.entry]]
        rpo = fn.rpo()
        while heap:
            b = rpo[heapq.heappop(heap)]
            sts = work.pop(b, None)
            if not sts:
                continue
            for k, st in sts.items():
                if k in done[b]:
                    continue
                done[b].add(k)
                self.steps += 1
                if self.steps > self.limit:
                    raise AnalysisError('too many states in %s' % fn.dem)
                for s in self.block(b, st):
                    t = fn.term(b)
                    if t.op == 'ret':
                        self.finish(t, s)
                        continue
                    for v, s2 in self.edges(b, s):
                        s2._k = None
                        w = work.setdefault(v, {})
                        k2 = s2.key()
                        if k2 not in done[v] and k2 not in w:
                            w[k2] = s2
                            heapq.heappush(heap, num[v])

    def finish(self, t, st):
        self.results.append((t, st))

    def block(self, b, st):
        cur = [st.copy()]
        for i in self.fn.bb[b]:
            if i.op == 'phi':
                continue
            if i.op in ('call', 'invoke'):
                if (i.get('intr') or '').startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental')):
                    continue
                nxt = []
                for s in cur:
                    s.env.pop(i.id, None)
                    nxt += self.call(i, s)
                cur = nxt
                for s in cur:
                    s._k = None
            elif i.op == 'store':
                for s in cur:
                    self.store(i, s)
            elif i.get('ty') not in (None, 'void'):
                more = []
                for s in cur:
                    x = self.compute(i, s)
                    if x is None and self.eager and i.op == 'icmp':
                        # each outcome is followed on its own
                        s2 = s.copy()
                        more += self.assume(['v', i.id], 0, s2)
                        s.env.pop(i.id, None)
                        more += self.assume(['v', i.id], 1, s)
                        continue
                    if x is None:
                        s.env.pop(i.id, None)
                    else:
                        s.env[i.id] = x
                    more.append(s)
                cur = more
        return cur

    def store(self, i, st):
        pass

    def edges(self, b, st):
        fn = self.fn
        t = fn.term(b)
        res = []
        if t.op == 'br' and len(t.ops) > 1:
            f, tr = t.ops[1][1], t.ops[2][1]
            if f == tr:
                res = [(f, st)]
            else:
                res = [(tr, s) for s in self.assume(t.ops[0], 1, st.copy())] + [(f, s) for s in self.assume(t.ops[0], 0, st.copy())]
        elif t.op == 'br':
            res = [(t.ops[0][1], st)]
        elif t.op == 'switch':
            k = self.known(t.ops[0], st)
            if isinstance(k, int):
                to = t.ops[1][1]
                for n in range(2, len(t.ops), 2):
                    if int(t.ops[n][2]) & ((1 << int(t.ops[n][1])) - 1) == k:
                        to = t.ops[n + 1][1]
                res = [(to, st)]
            else:
                cases = []
                for n in range(2, len(t.ops), 2):
                    cases.append(int(t.ops[n][2]) & ((1 << int(t.ops[n][1])) - 1))
                    for s in self.switch_case(t, cases[-1], None, st.copy()):
                        res.append((t.ops[n + 1][1], s))
                for s in self.switch_case(t, None, cases, st.copy()):
                    res.append((t.ops[1][1], s))
        else:
            res = [(s, st.copy()) for s in fn.succ[b]]
        out = []
        for v, s in res:
            new = {}
            for i in fn.bb[v]:
                if i.op != 'phi':
                    break
                o = next(o for o, p in i['in'] if p == b)
                k = self.known(o, s)
                if k is None and i['ty'] == 'ptr' and self.nonnull(o):
                    k = 'nz'
                new[i.id] = k
                self.phi(i, o, s)
            s = s.copy()
            for n, k in new.items():
                if k is None:
                    s.env.pop(n, None)
                else:
                    s.env[n] = k
            lv = self.live[v] | set(new)
            s.env = {n: k for n, k in s.env.items() if n in lv}
            for s2 in self.across(b, v, s):
                out.append((v, s2))
        return out

    def switch_case(self, t, val, others, st):
        return [st]

    def phi(self, i, o, st):
        pass

    def across(self, u, v, st):
        """Bookkeeping when control enters, repeats or leaves loops."""
        lu, lv = self.g.loop_of[u], self.g.loop_of[v]
        anc = lambda l: list(l.ancestors()) if l is not None else []
        inu = set(([lu] if lu else []) + anc(lu)) if lu else set()
        inv = set(([lv] if lv else []) + anc(lv)) if lv else set()
        for l in inu - inv:
            self.leave(l, (u, v), st)
        h = self.header.get(v)
        if h is not None:
            if h in inu:
                self.repeat(h, u, st)
            else:
                self.enter(h, st)
        return [st]

    def enter(self, l, st):
        pass

    def repeat(self, l, u, st):
        pass

    def leave(self, l, edge, st):
        pass

    def call(self, i, st):
        return [st]
