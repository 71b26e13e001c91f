"""Gated summaries: canonical terms for SSA values and canonical (BDD) path conditions.

For one function (everything but container and library mutators inlined) this derives
  * for each value a canonical term: integers and pointers are polynomials modulo 2^w over atoms
    (arguments, loads, loop counters, calls), floats polynomials over the rationals;
  * for each block the condition, within one iteration of its innermost loop, under which it runs,
    as a BDD over canonical comparison atoms.  Loops are collapsed: induction variables become
    start + step*K, "found" flags and early exits both become exists(loop, condition).
The same behaviour written differently (helpers, early returns, flags, iterators or indices, merged
or split conditions) gives the same terms and conditions.  What does not fit stays an atom of its
own, which the rules treat as unknown.
"""
from fractions import Fraction as Fr


class BDD:
    def __init__(self):
        self.nodes = [None, None]      # 0 False, 1 True
        self.uniq = {}
        self.memo = {}
        self.atoms = []
        self.index = {}

    def var(self, key):
        if key not in self.index:
            self.index[key] = len(self.atoms)
            self.atoms.append(key)
        return self.mk(self.index[key], 0, 1)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        if k not in self.uniq:
            self.uniq[k] = len(self.nodes)
            self.nodes.append(k)
        return self.uniq[k]

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self.nodes[x][0] for x in (f, g, h) if x > 1)

        def co(x, b):
            if x > 1 and self.nodes[x][0] == v:
                return self.nodes[x][2 if b else 1]
            return x
        r = self.mk(v, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.memo[k] = r
        return r

    def AND(self, *a):
        r = 1
        for x in a:
            r = self.ite(r, x, 0)
        return r

    def OR(self, *a):
        r = 0
        for x in a:
            r = self.ite(r, 1, x)
        return r

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def XOR(self, a, b):
        return self.ite(a, self.NOT(b), b)

    def implies(self, a, b):
        return self.ite(a, b, 1) == 1

    def support(self, f):
        out, st, seen = set(), [f], set()
        while st:
            x = st.pop()
            if x <= 1 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            out.add(v)
            st += [lo, hi]
        return out

    def restrict(self, f, v, val):
        """f with variable index v fixed."""
        memo = {}

        def go(x):
            if x <= 1:
                return x
            if x in memo:
                return memo[x]
            w, lo, hi = self.nodes[x]
            if w == v:
                r = hi if val else lo
            elif w > v:
                r = x
            else:
                r = self.mk(w, go(lo), go(hi))
            memo[x] = r
            return r
        return go(f)

    def exists(self, f, vs):
        for v in vs:
            f = self.OR(self.restrict(f, v, 0), self.restrict(f, v, 1))
        return f

    def constrain(self, f, c):
        """Generalised cofactor of f by care set c (c != 0)."""
        memo = {}

        def go(f, c):
            if c == 1 or f <= 1:
                return f
            if f == c:
                return 1
            k = (f, c)
            if k in memo:
                return memo[k]
            v = min(self.nodes[x][0] for x in (f, c) if x > 1)

            def co(x, b):
                return self.nodes[x][2 if b else 1] if x > 1 and self.nodes[x][0] == v else x
            c0, c1 = co(c, 0), co(c, 1)
            if c0 == 0:
                r = go(co(f, 1), c1)
            elif c1 == 0:
                r = go(co(f, 0), c0)
            else:
                r = self.mk(v, go(co(f, 0), c0), go(co(f, 1), c1))
            memo[k] = r
            return r
        return go(f, c) if c != 0 else f

    def cube(self, f):
        """One satisfying assignment as [(atom, bool)]."""
        out = []
        while f > 1:
            v, lo, hi = self.nodes[f]
            if hi != 0:
                out.append((self.atoms[v], True))
                f = hi
            else:
                out.append((self.atoms[v], False))
                f = lo
        return out if f == 1 else None


# ------------------------------------------------------------------ terms
# ('p', w, ((mono, coeff), ...))  integer polynomial, mono = sorted tuple of atoms
# ('f', ((mono, Fr), ...))        real polynomial
# ('b', node)                     boolean
# ('ite', ((node, term), ...))
# ('agg', ...) / other tuples     opaque
def skey(x):
    return repr(x)


def P(w, d):
    m = (1 << w) - 1
    items = []
    for k, c in d.items():
        c &= m
        if c:
            items.append((k, c))
    items.sort(key=skey)
    return ('p', w, tuple(items))


def K(w, c):
    return P(w, {(): c})


def A(w, atom):
    return P(w, {(atom,): 1})


def pconst(t):
    """Unsigned constant value, or None."""
    if t[0] == 'p':
        if not t[2]:
            return 0
        if len(t[2]) == 1 and t[2][0][0] == ():
            return t[2][0][1]
    return None


def sconst(t):
    c = pconst(t)
    if c is None:
        return None
    return c - (1 << t[1]) if c >> (t[1] - 1) else c


def padd(a, b, s=1):
    d = dict(a[2])
    for k, c in b[2]:
        d[k] = d.get(k, 0) + s*c
    return P(a[1], d)


def pmul(a, b):
    d = {}
    for k, c in a[2]:
        for k2, c2 in b[2]:
            m = tuple(sorted(k + k2, key=skey))
            d[m] = d.get(m, 0) + c*c2
    return P(a[1], d)


def patom(t):
    """The single atom of t, or None."""
    if t[0] == 'p' and len(t[2]) == 1 and t[2][0][1] == 1 and len(t[2][0][0]) == 1:
        return t[2][0][0][0]
    return None


def Ff(d):
    items = sorted(((k, c) for k, c in d.items() if c), key=skey)
    return ('f', tuple(items))


def FA(atom):
    return Ff({(atom,): Fr(1)})


def FK(x):
    return Ff({(): Fr(x)})


def fconst(t):
    if t[0] == 'f':
        if not t[1]:
            return Fr(0)
        if len(t[1]) == 1 and t[1][0][0] == ():
            return t[1][0][1]
    return None


def subterms(t, seen=None):
    """All nested tuples."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        st += [y for y in x if isinstance(y, tuple)]


def atoms_of(t):
    """Atoms of a polynomial term."""
    if t[0] == 'p':
        return {a for k, c in t[2] for a in k}
    if t[0] == 'f':
        return {a for k, c in t[1] for a in k}
    return set()


def root_off(t):
    """Address polynomial -> (non-constant part, constant offset)."""
    d = dict(t[2])
    c = d.pop((), 0)
    if c >> 63:
        c -= 1 << 64
    return P(64, d), c


class Loop:
    def __init__(self, header, i):
        self.header = header
        self.id = i
        self.blocks = {header}
        self.latches = []
        self.parent = None
        self.children = []
        self.exits = []
        self.trip = None       # term of the number of iterations
        self.trip_edge = None
        self.ivs = {}
        self.flags = {}
        self.update = {}

    def __contains__(self, b):
        return b in self.blocks

    def ancestors(self):
        l = self
        while l is not None:
            yield l
            l = l.parent


WIDTH = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'ptr': 64, 'i128': 128}


def width(ty):
    if ty in WIDTH:
        return WIDTH[ty]
    if ty[0] == 'i' and ty[1:].isdigit():
        return int(ty[1:])
    return None


NOEFFECT = ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.expect')


class Reach:
    """Conditions of the blocks (and inner loops) of one loop within an iteration, computed in order as needed: a condition only
    depends on blocks before it, and computing later ones early could need the very value that is being computed."""

    def __init__(self, g, region):
        self.g, self.region = g, region
        self.start = region.header if region else g.fn.entry
        self.R = {g.nkey(g.node(self.start, region)): 1}
        self.order, self.pos = [], {}
        self.next, self.busy = 0, False
        for b in g.fn.rpo():
            if region is None or b in region.blocks:
                n = g.node(b, region)
                nk = g.nkey(n)
                if nk not in self.pos:
                    self.pos[nk] = len(self.order)
                    self.order.append((nk, n))

    def get(self, nk, default=None):
        k = self.pos.get(nk)
        if k is None:
            return default
        if self.next <= k and not self.busy:
            self.busy = True
            try:
                while self.next <= k:
                    self.compute(*self.order[self.next])
                    self.next += 1
            finally:
                self.busy = False
        return self.R.get(nk, default)

    def compute(self, nk, n):
        g, region = self.g, self.region
        h = n.header if isinstance(n, Loop) else n
        if h == self.start:
            self.R[nk] = 1
            return
        r = 0
        for p in g.fn.pred[h]:
            if p not in g.live or (region is not None and p not in region.blocks):
                continue
            if isinstance(n, Loop) and p in n.blocks:
                continue
            r = g.B.OR(r, g.edge(p, h, region))
        self.R[nk] = r


class GFun:
    """Gated summary of one function."""

    def __init__(self, mod, fn, bdd=None, pure=(), readonly=(), argvals=None, track_args=False, member_sizes=(),
                 nested=False, backptrs=(), regions=(), ignore=None):
        """pure: predicates on demangled names of calls whose result depends on arguments only.
        readonly: calls that do not modify memory reachable from their arguments."""
        self.m, self.fn = mod, fn
        self.B = bdd or BDD()
        self.pure = pure
        self.readonly = readonly
        self.memo = {}
        self.argi = {a['id']: i for i, a in enumerate(fn.args)}
        self.argty = {a['id']: a['ty'] for a in fn.args}
        self.argvals = argvals or {}
        self.vmemo = {}
        self.basem = {}
        self.track_args = track_args
        self.member_sizes = member_sizes
        self.nested = nested
        self.resolved = {}
        self.regions = regions
        self.ignore = ignore
        self.orig = {}
        self.busy = set()
        self.reachm = {}
        self.cyc = set()
        self.find_loops()
        inner_first = sorted(self.loops, key=lambda l: -len(list(l.ancestors())))
        for l in self.loops:
            self.structural_ivs(l)
        for rnd in range(2):
            for l in reversed(inner_first):
                self.forget()
                self.solve_ivs(l)
            for l in inner_first:
                self.forget()
                self.find_trip(l)
            for l in inner_first:
                self.forget()
                self.solve_flags(l)
        self.forget()
        if backptrs:
            self.solve_backptrs(backptrs)

    def solve_backptrs(self, vecs):
        """Pointer phis that always hold the address of the last element of a vector member: (address of the vector,
        element size)."""
        fn = self.fn
        for l in sorted(self.loops, key=lambda l: len(list(l.ancestors()))):
            for p in fn.bb[l.header]:
                if p.op != 'phi' or p['ty'] != 'ptr' or p.id in l.ivs:
                    continue
                for v, sz in vecs:
                    self.forget()
                    end = padd(v, K(64, 8))
                    self.resolved[p.id] = lambda p=p, end=end, sz=sz, l=l: padd(
                        self.value_before(end, 'i64', fn.bb[l.header][0], l), K(64, sz), -1)
                    ok = True
                    for o, b in p['in']:
                        if b not in self.live:
                            continue
                        c = l if b in l.blocks else l.parent
                        t = self.term(o, c)
                        e = self.value_before(end, 'i64', fn.term(b), c)
                        e = self.lift(lambda x: padd(x, K(64, sz), -1), e)
                        if t != e:
                            ok = False
                            break
                    if ok:
                        break
                    del self.resolved[p.id]
        self.forget()

    def forget(self):
        self.memo, self.vmemo, self.reachm = {}, {}, {}
        self.busy, self.cyc = set(), set()

    # -------------------------------------------------------------- loops
    def find_loops(self):
        fn = self.fn
        live = set(fn.rpo())
        hdr = {}
        for b in fn.rpo():
            for s in fn.succ[b]:
                if fn.dominates(s, b):
                    hdr.setdefault(s, []).append(b)
        self.loops = []
        for n, (h, ls) in enumerate(hdr.items()):
            l = Loop(h, n)
            l.latches = ls
            st = list(ls)
            while st:
                b = st.pop()
                if b in l.blocks or b not in live:
                    continue
                l.blocks.add(b)
                st += [p for p in fn.pred[b] if p in live]
            self.loops.append(l)
        self.loop_of = {}
        for b in fn.blocks:
            c = [l for l in self.loops if b in l.blocks]
            self.loop_of[b] = min(c, key=lambda l: len(l.blocks)) if c else None
        for l in self.loops:
            c = [o for o in self.loops if o is not l and l.header in o.blocks and len(o.blocks) > len(l.blocks)]
            l.parent = min(c, key=lambda o: len(o.blocks)) if c else None
            if l.parent:
                l.parent.children.append(l)
            for b in sorted(l.blocks):
                for s in fn.succ[b]:
                    if s not in l.blocks and (b, s) not in l.exits:
                        l.exits.append((b, s))
        self.live = live

    def within(self, l, ctx):
        """Loop ctx is l or inside l."""
        while ctx is not None:
            if ctx is l:
                return True
            ctx = ctx.parent
        return l is None

    def structural_ivs(self, l):
        """phi + loop invariant amount, read off the def chains."""
        fn = self.fn
        l.pend = {}
        for p in fn.bb[l.header]:
            if p.op != 'phi' or not width(p['ty']):
                continue
            res = []
            for v, b in p['in']:
                if b not in l.blocks:
                    continue
                inc = []
                while v[0] == 'v' and v[1] != p.id:
                    i = fn.insts.get(v[1])
                    if i is None or i.bb not in l.blocks:
                        v = ('x',)
                    elif i.op in ('add', 'sub'):
                        x, y = i.ops[0], i.ops[1]
                        if i.op == 'add' and not (x[0] == 'v' and self.chain(x, p, l)):
                            x, y = y, x
                        inc.append((1 if i.op == 'add' else -1, y))
                        v = x
                    elif i.op == 'getelementptr' and not i.get('bad') and 'base' in i.d:
                        inc.append((i['off'], None))
                        inc += [(sc, x) for x, sc in i.get('idx', [])]
                        v = i['base']
                    elif i.op in ('freeze',):
                        v = i.ops[0]
                    else:
                        v = ('x',)
                if v[0] != 'v':
                    res = None
                    break
                res.append(inc)
            if res and all(all(y is None or self.invariant(y, l) for _, y in inc) for inc in res) and \
                    all(r == res[0] for r in res):
                l.pend[p.id] = res[0]

    def chain(self, o, p, l):
        """o leads to phi p through additions."""
        for _ in range(20):
            if o[0] != 'v':
                return False
            if o[1] == p.id:
                return True
            i = self.fn.insts.get(o[1])
            if i is None or i.bb not in l.blocks or i.op not in ('add', 'sub', 'getelementptr', 'freeze'):
                return False
            if i.op == 'getelementptr':
                o = i.d.get('base', ('x',))
            elif i.op == 'add' and not (i.ops[0][0] == 'v' and i.ops[0] != o and self.chain(i.ops[0], p, l)):
                o = i.ops[1]
            else:
                o = i.ops[0]
        return False

    def invariant(self, o, l):
        if o[0] != 'v':
            return True
        i = self.fn.insts.get(o[1])
        return i is None or i.bb not in l.blocks

    def latchval(self, v, b, l):
        """Value handed to the next iteration, given that there is one."""
        return self.exitval(v, b, l.header, l)

    def exitval(self, v, b, to, l):
        """v in loop l, given that the edge b->to is taken."""
        t = self.term(v, l)
        if t[0] not in ('b', 'ite'):
            return t
        e = self.edge(b, to, l)
        if e in (0, 1):
            return t
        if t[0] == 'b':
            return ('b', self.B.constrain(t[1], e))
        return self.mkite([(self.B.constrain(c, e), x) for c, x in t[1] if self.B.AND(c, e)])

    def header_updates(self, l):
        for p in [i for i in self.fn.bb[l.header] if i.op == 'phi']:
            vals = [self.latchval(v, b, l) for v, b in p['in'] if b in l.blocks and b in self.live]
            inits = [self.term(v, l.parent) for v, b in p['in'] if b not in l.blocks]
            if not vals or not inits:
                continue
            t = vals[0] if all(v == vals[0] for v in vals) else ('multi', tuple(vals))
            i0 = inits[0] if all(v == inits[0] for v in inits) else ('multi', tuple(inits))
            yield p, i0, t

    def solve_ivs(self, l):
        fn = self.fn
        for p in [i for i in fn.bb[l.header] if i.op == 'phi']:
            if p.id in l.pend:
                inits = [self.term(v, l.parent) for v, b in p['in'] if b not in l.blocks]
                if not inits or any(v != inits[0] for v in inits) or inits[0][0] not in ('p', 'ite'):
                    continue
                w = width(p['ty'])
                st = K(w, 0)
                for sc, y in l.pend[p.id]:
                    if y is None:
                        st = padd(st, K(w, sc))
                        continue
                    t = self.term(y, l.parent)
                    if t[0] != 'p':
                        st = None
                        break
                    if t[1] < w:
                        t = self.cast('sext', t, w, t[1])
                    st = padd(st, pmul(t, K(w, sc)))
                if st is not None:
                    l.ivs[p.id] = (inits[0], st)
        self.forget()
        for p, i0, t in list(self.header_updates(l)):
            l.update[p.id] = (i0, t)
            if p.id in l.ivs or t[0] != 'p' or i0[0] != 'p':
                continue
            me = self.hphi(p)
            d = dict(t[2])
            if d.pop((me,), None) == 1 and not any(me in k for k in d):
                step = P(t[1], d)
                if not any(self.varies(a, l) for a in subterms(step)):
                    l.ivs[p.id] = (i0, step)

    def varies(self, a, l):
        if len(a) < 2 or not isinstance(a[0], str):
            return False
        if a[0] == 'hphi':
            i = self.fn.insts.get(a[1])
            return i is None or i.bb in l.blocks
        if a[0] == 'iv':
            return self.within(l, self.loops[a[1]])
        if a[0] == 'cyc':
            return True
        if a[0] in ('call', 'ldv') and len(a) > 3:
            if isinstance(a[3], tuple):
                return a[3][1] in l.blocks
            i = self.fn.insts.get(a[3])
            return i is None or i.bb in l.blocks
        return False

    def hphi(self, ins, ctx=False, kind='hphi'):
        """Value of a header phi that no rule resolves: in the current iteration of its loop (the default), or after the
        loop as seen from ctx.  The iterations are explicit, so that renaming counters applies to it."""
        l = self.loop_of[ins.bb]
        args = []
        while l is not None:
            args.append(A(64, ('iv' if ctx is False or self.within(l, ctx) else 'kx', l.id)))
            l = l.parent
        return (kind, ins.id, tuple(args))

    def solve_flags(self, l):
        l.flags = {}
        for p, i0, t in list(self.header_updates(l)):
            l.update[p.id] = (i0, t)
            if p.id in l.ivs:
                continue
            me = self.hphi(p)
            if t[0] == 'b' and i0[0] == 'b':
                v = self.B.index.get(self.hphi(p, False, 'bphi'))
                if v is not None and v in self.B.support(t[1]):
                    c1, c0 = self.B.restrict(t[1], v, 1), self.B.restrict(t[1], v, 0)
                    if c1 == 1:
                        l.flags[p.id] = (c0, ('b', 1), i0)
                    elif c0 == 0:
                        l.flags[p.id] = (self.B.NOT(c1), ('b', 0), i0)
            elif t[0] == 'ite':
                other = [(c, x) for c, x in t[1] if x != A(x[1], me)] if all(x[0] == 'p' for c, x in t[1]) else []
                same = [c for c, x in t[1] if x[0] == 'p' and x == A(x[1], me)]
                if same and len(other) == 1 and pconst(other[0][1]) is not None:
                    l.flags[p.id] = (other[0][0], other[0][1], i0)

    def find_trip(self, l):
        fn = self.fn
        for (u, v) in l.exits:
            if self.loop_of[u] is not l:
                continue
            if u != l.header and u not in l.latches:
                continue
            t = fn.term(u)
            if t.op != 'br' or len(t.ops) != 3:
                continue
            c = t.ops[0]
            if c[0] != 'v' or c[1] not in fn.insts:
                continue
            ci = fn.insts[c[1]]
            if ci.op != 'icmp':
                continue
            a, b = self.term(ci.ops[0], l), self.term(ci.ops[1], l)
            me = ('iv', l.id)

            def has(x):
                return x[0] == 'p' and any(me in k for k, _ in x[2])
            if not all(x[0] == 'p' or x[0] == 'ite' and all(y[0] == 'p' for _, y in x[1]) and not self.mentions(x, me)
                       for x in (a, b)) or has(a) == has(b):
                continue
            if not has(a):
                a, b = b, a
                pred = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult',
                        'ule': 'uge', 'uge': 'ule'}.get(ci['pred'], ci['pred'])
            else:
                pred = ci['pred']
            d = dict(a[2])
            cs = {k: c for k, c in d.items() if me in k}
            step = None
            if len(cs) == 1:
                (k, c), = cs.items()
                k = list(k)
                k.remove(me)
                step = P(a[1], {tuple(k): c})
            w = a[1]
            one = K(w, int(pred in (('ugt', 'sgt') if t.ops[2][1] == v else ('ule', 'sle'))))

            def count(b):
                rest = padd(b, P(a[1], {k: c for k, c in d.items() if k not in cs}), -1)
                sc = sconst(step)
                if sc == 1:
                    N = rest
                elif sc == -1:
                    N = P(w, {k: -c for k, c in rest[2]})
                elif pconst(rest) is not None and sc:
                    q = sconst(rest)
                    N = K(w, -(-q//sc))
                else:
                    N = self.divterm('div', rest, step)
                return padd(N, one)
            N = None
            if step is not None:
                N = count(b) if b[0] == 'p' else self.lift(count, b)
            l.trip_edge = (u, v)
            l.trip = N
            l.trip_pred = pred
            l.trip_at = 'header' if u == l.header else 'latch'
            l.trip_exit_pol = (t.ops[2][1] == v)     # condition value on which the loop is left
            break

    def mentions(self, t, x):
        """x occurs in t, also in its conditions."""
        return self.rename(t, {x: ('none',)}) != t

    def divterm(self, kind, a, b):
        w = a[1]
        c = sconst(b)
        if c == 1:
            return a
        if c is not None and c < 0:
            a = P(w, {k: -x for k, x in a[2]})
            b = K(w, -c)
            c = -c
        if c:
            # exact for differences that are visible multiples
            m = 1 << w
            co = []
            for k, x in a[2]:
                x = x - m if x >> (w - 1) else x
                if x % c:
                    break
                co.append((k, x//c))
            else:
                return P(w, dict(co))
        return A(w, (kind, a, b))

    # -------------------------------------------------------------- values
    def term(self, o, ctx):
        k = o[0]
        if k == 'v':
            key = (o[1], ctx.id if ctx else None)
            r = self.memo.get(key)
            if r is None:
                if key in self.busy:
                    self.cyc.add(key)
                    return ('cyc', o[1])
                self.busy.add(key)
                outer, self.cyc = self.cyc, set()
                try:
                    i = self.fn.insts.get(o[1])
                    l = self.loop_of[i.bb] if i is not None else None
                    if l is None or self.within(l, ctx) or (i.op == 'phi' and i.bb == l.header and i.id in l.flags) or \
                            i.op == 'alloca':
                        r = self.value(o[1], ctx)
                    else:
                        # seen from outside: the value in the iteration that left the loop
                        r = self.escape(self.term(o, l), l, ctx)
                finally:
                    self.busy.discard(key)
                    self.cyc.discard(key)
                    if not self.cyc:
                        self.memo[key] = r
                    self.cyc |= outer
            return r
        if k == 'i':
            w = int(o[1])
            if w == 1:
                return ('b', int(o[2]) & 1)
            return K(w, int(o[2]))
        if k == 'n':
            return K(64, 0)
        if k == 'g':
            return padd(A(64, ('glob', o[1])), K(64, o[2]))
        if k == 'f':
            import struct
            b = int(o[2])
            x = {'double': lambda: struct.unpack('<d', struct.pack('<Q', b))[0],
                 'float': lambda: struct.unpack('<f', struct.pack('<I', b))[0],
                 'half': lambda: struct.unpack('<e', struct.pack('<H', b))[0]}.get(o[1], lambda: None)()
            if x is None:
                return ('fx', o[1], b)
            if x != x or x in (float('inf'), float('-inf')):
                return FA(('fspecial', repr(x)))
            return FK(Fr(x))
        if k == 'fn':
            return A(64, ('fn', o[1]))
        if k == 'u':
            return ('undef',)
        return ('const',) + tuple(map(str, o))

    def isbool(self, t):
        return t[0] == 'b'

    def asbool(self, t):
        """Boolean value of an i1 term -> BDD node."""
        B = self.B
        if t[0] == 'b':
            return t[1]
        if t[0] == 'ite':
            r = 0
            for c, x in t[1]:
                r = B.OR(r, B.AND(c, self.asbool(x)))
            return r
        if t[0] == 'p':
            c = pconst(t)
            if c is not None:
                return 1 if c else 0
            return self.cmp('ne', t, K(t[1], 0))
        if t == ('undef',):
            return 0
        return B.var(('bool', t))

    def lift(self, f, *ts):
        """Apply f to terms, distributing over ite."""
        for i, t in enumerate(ts):
            if t[0] == 'ite':
                if len(t[1]) > 8:
                    return None
                out = []
                for c, x in t[1]:
                    r = self.lift(f, *(ts[:i] + (x,) + ts[i + 1:]))
                    if r is None:
                        return None
                    out.append((c, r))
                return self.mkite(out)
        return f(*ts)

    def mkite(self, alts):
        """alts: [(node, term)] covering; merges equal terms and booleans."""
        B = self.B
        flat = []
        for c, t in alts:
            if c == 0:
                continue
            if t[0] == 'ite':
                for c2, t2 in t[1]:
                    cc = B.AND(c, c2)
                    if cc != 0:
                        flat.append((cc, t2))
            else:
                flat.append((c, t))
        und = [x for x in flat if x[1] == ('undef',)]
        flat2 = [x for x in flat if x[1] != ('undef',)]
        if not flat2:
            return ('undef',)
        merged = {}
        for c, t in flat2:
            merged[t] = B.OR(merged.get(t, 0), c)
        if len(merged) == 1:
            return next(iter(merged))
        if all(t[0] == 'b' for t in merged):
            r = 0
            for t, c in merged.items():
                r = B.OR(r, B.AND(c, t[1]))
            return ('b', r)
        return ('ite', tuple(sorted(((c, t) for t, c in merged.items()), key=lambda x: skey(x[1]))))

    def value(self, vid, ctx):
        fn, B = self.fn, self.B
        if vid in self.argi:
            i = self.argi[vid]
            if i in self.argvals:
                return self.argvals[i]
            w = width(self.argty[vid])
            if w == 1:
                return ('b', B.var(('arg', i)))
            if w:
                return A(w, ('arg', i))
            if self.argty[vid] in ('double', 'float', 'half'):
                return FA(('arg', i))
            return ('arg', i)
        ins = fn.insts[vid]
        op, ty = ins.op, ins['ty']
        w = width(ty)
        o = ins.ops
        T = lambda x: self.term(x, ctx)
        if op in ('add', 'sub', 'mul', 'shl'):
            a, b = T(o[0]), T(o[1])

            def f(x, y):
                if x[0] != 'p' or y[0] != 'p':
                    return A(w, ('op', op, x, y))
                if op == 'mul':
                    return pmul(x, y)
                if op == 'shl':
                    c = pconst(y)
                    return pmul(x, K(w, 1 << c)) if c is not None else A(w, ('op', op, x, y))
                return padd(x, y, 1 if op == 'add' else -1)
            return self.lift(f, a, b) or A(w, ('op', op, a, b))
        if op in ('and', 'or', 'xor') and w == 1:
            a, b = self.asbool(T(o[0])), self.asbool(T(o[1]))
            return ('b', {'and': B.AND, 'or': B.OR, 'xor': B.XOR}[op](a, b))
        if op in ('and', 'or', 'xor', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = T(o[0]), T(o[1])

            def f(x, y):
                if x[0] != 'p' or y[0] != 'p':
                    return A(w, ('op', op, x, y))
                c, d = pconst(x), pconst(y)
                q = op
                if c is not None and d is not None:
                    try:
                        sc, sd = sconst(x), sconst(y)
                        r = {'and': lambda: c & d, 'or': lambda: c | d, 'xor': lambda: c ^ d, 'lshr': lambda: c >> d,
                             'ashr': lambda: sc >> d, 'udiv': lambda: c//d, 'urem': lambda: c % d,
                             'sdiv': lambda: int(Fr(sc, sd)), 'srem': lambda: sc - sd*int(Fr(sc, sd))}[op]()
                        return K(w, r)
                    except (ZeroDivisionError, ValueError):
                        pass
                if op == 'and' and c is not None and d is None:
                    x, y, c, d = y, x, d, c
                if op == 'and' and d is not None and d & (d + 1) == 0:
                    q, y = 'urem', K(w, d + 1)
                    if d == 0:
                        return K(w, 0)
                    if d == (1 << w) - 1:
                        return x
                elif op in ('lshr', 'ashr') and d is not None:
                    q, y = 'div', K(w, 1 << d)
                elif op in ('udiv', 'sdiv'):
                    q = 'div'
                elif op == 'srem':
                    q = 'srem'
                if q == 'div':
                    return self.divterm('div', x, y)
                if q == 'urem' and pconst(y) == 1:
                    return K(w, 0)
                if q in ('and', 'or', 'xor'):
                    x, y = sorted((x, y), key=skey)
                return A(w, (q, x, y))
            return self.lift(f, a, b) or A(w, ('op', op, a, b))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return self.lift(lambda x, y: self.farith(op, x, y), T(o[0]), T(o[1])) or FA(('op', op, T(o[0]), T(o[1])))
        if op == 'fneg':
            return self.lift(lambda x: self.farith('fsub', FK(0), x), T(o[0])) or FA(('op', op, T(o[0])))
        if op in ('fpext', 'fptrunc'):
            return self.lift(lambda x: x if fconst(x) is not None and op == 'fpext' else FA((op, ty, x)), T(o[0]))
        if op in ('uitofp', 'sitofp'):
            def f(x):
                if x[0] == 'p':
                    c = pconst(x) if op[0] == 'u' else sconst(x)
                    if c is not None:
                        return FK(c)
                return FA((op, x))
            return self.lift(f, T(o[0])) or FA((op, T(o[0])))
        if op in ('fptoui', 'fptosi'):
            return A(w, (op, T(o[0])))
        if op in ('zext', 'sext', 'trunc'):
            a = T(o[0])
            sw = width(ins['oty']) if ins.get('oty') else None
            return self.lift(lambda x: self.cast(op, x, w, sw), a) or A(w, (op, a))
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            return T(o[0])
        if op == 'icmp':
            return self.lift(lambda x, y: ('b', self.cmp(ins['pred'], x, y)), T(o[0]), T(o[1])) or \
                ('b', B.var(('icmp', ins['pred'], T(o[0]), T(o[1]))))
        if op == 'fcmp':
            return self.lift(lambda x, y: ('b', self.fcmp(ins['pred'], x, y)), T(o[0]), T(o[1])) or \
                ('b', B.var(('fcmp', ins['pred'], T(o[0]), T(o[1]))))
        if op == 'getelementptr':
            if ins.get('bad') or 'base' not in ins.d:
                return ('opq', vid)
            parts = [T(ins['base'])]
            scales = []
            for x, sc in ins.get('idx', []):
                parts.append(T(x))
                scales.append(sc)
            off = ins['off']

            def f(base, *ix):
                if base[0] != 'p' or any(x[0] != 'p' for x in ix):
                    return A(64, ('gep', base) + ix)
                r = padd(base, K(64, off))
                for x, sc in zip(ix, scales):
                    if x[1] < 64:
                        x = self.cast('sext', x, 64, x[1])
                    r = padd(r, pmul(x, K(64, sc)))
                return r
            return self.lift(f, *parts) or A(64, ('gep', vid))
        if op == 'alloca':
            return A(64, ('alloca', vid))
        if op == 'select':
            c = T(o[0])
            if ty.startswith('<'):
                return ('opq', vid)
            c = self.asbool(c)
            if w == 1:
                return ('b', B.ite(c, self.asbool(T(o[1])), self.asbool(T(o[2]))))
            return self.mkite([(c, T(o[1])), (B.NOT(c), T(o[2]))])
        if op == 'phi':
            return self.phi(ins, ctx)
        if op == 'load':
            return self.load(ins, ctx)
        if op in ('call', 'invoke'):
            return self.call(ins, ctx)
        if op == 'extractvalue':
            a = T(o[0])
            if a[0] == 'p' or a[0] == 'callv':
                return self.typed(('ev', a, ins.get('boff', 0)), ty)
            return self.typed(('ev', a, ins.get('boff', 0)), ty)
        return self.typed(('opq', vid), ty)

    def typed(self, atom, ty):
        w = width(ty)
        if w == 1:
            return ('b', self.B.var(atom))
        if w:
            return A(w, atom)
        if ty in ('double', 'float', 'half'):
            return FA(atom)
        return ('callv', atom)

    def farith(self, op, a, b):
        if a[0] != 'f' or b[0] != 'f':
            return FA(('op', op, a, b))
        if op in ('fadd', 'fsub'):
            d = dict(a[1])
            for k, c in b[1]:
                d[k] = d.get(k, 0) + (c if op == 'fadd' else -c)
            return Ff(d)
        if op == 'fmul':
            d = {}
            for k, c in a[1]:
                for k2, c2 in b[1]:
                    m = tuple(sorted(k + k2, key=skey))
                    d[m] = d.get(m, 0) + c*c2
            return Ff(d)
        c = fconst(b)
        if c:
            return Ff({k: x/c for k, x in a[1]})
        # normalise the divisor to a leading coefficient of one
        if b[1]:
            lead = b[1][0][1]
            b = Ff({k: x/lead for k, x in b[1]})
            a = Ff({k: x/lead for k, x in a[1]})
        return self.farith('fmul', a, FA(('inv', b)))

    def cast(self, op, x, w, sw=None):
        if x[0] == 'b':
            if op == 'trunc':
                return x
            return self.mkite([(x[1], K(w, 1 if op == 'zext' else -1)), (self.B.NOT(x[1]), K(w, 0))])
        if x[0] != 'p':
            return A(w, (op, x)) if w != 1 else ('b', self.B.var((op, x)))
        if w == 1:
            c = pconst(x)
            if c is not None:
                return ('b', c & 1)
            a = patom(x)
            if a is not None and a[0] == 'ld':
                return ('b', self.cmp('ne', x, K(x[1], 0)))       # bool in memory is 0 or 1
            if a is not None and (a[0] == 'zext' or a[0] == 'hphi' or a[0] == 'call' or a[0] == 'ev'):
                return ('b', self.cmp('ne', x, K(x[1], 0)))
            return ('b', self.cmp('ne', A(x[1], ('urem', x, K(x[1], 2))), K(x[1], 0)))
        if op == 'trunc':
            d = {}
            for k, c in x[2]:
                r = K(w, c)
                for a in k:
                    r = pmul(r, self.tratom(a, x[1], w))
                for k2, c2 in r[2]:
                    d[k2] = d.get(k2, 0) + c2
            return P(w, d)
        c = pconst(x) if op == 'zext' else sconst(x)
        if c is not None:
            return K(w, c)
        # affine in loop counters only: assumed not to wrap (bounded by the trip count)
        if all(len(k) == 0 or len(k) == 1 and k[0][0] == 'iv' for k, _ in x[2]):
            d = {}
            for k, c in x[2]:
                d[k] = c - (1 << x[1]) if c >> (x[1] - 1) else c
            return P(w, d)
        a = patom(x)
        if a is not None and a[0] in ('zext', 'sext') and (a[0] == op or a[0] == 'zext'):
            return A(w, (a[0], w, a[2]))
        return A(w, (op, w, x))

    def tratom(self, a, sw, w):
        if a[0] in ('zext', 'sext'):
            y = a[2]
            if y[0] == 'p':
                if y[1] == w:
                    return y
                if y[1] > w:
                    return self.cast('trunc', y, w)
                return A(w, (a[0], w, y))
        if a[0] == 'iv' or a[0] == 'trunc':
            return A(w, a)
        return A(w, ('trunc', sw, a))

    # -------------------------------------------------------------- comparisons
    SW = {'ugt': 'ult', 'ule': 'uge', 'sgt': 'slt', 'sle': 'sge'}

    def cmp(self, pred, a, b):
        B = self.B
        if a == ('undef',) or b == ('undef',):
            return B.var(('icmp', pred, a, b))
        if a[0] == 'b' or b[0] == 'b':
            x, y = self.asbool(a), self.asbool(b)
            r = B.XOR(x, y)
            return r if pred == 'ne' else B.NOT(r) if pred == 'eq' else B.var(('icmp', pred, a, b))
        if a[0] != 'p' or b[0] != 'p':
            return B.var(('icmp', pred, a, b))
        w = a[1]
        if pred == 'ne':
            return B.NOT(self.cmp('eq', a, b))
        if pred in ('ugt', 'sgt'):
            return self.cmp(self.SW[pred], b, a)
        if pred in ('ule', 'sle'):
            return B.NOT(self.cmp('ult' if pred[0] == 'u' else 'slt', b, a))
        if pred in ('uge', 'sge'):
            return B.NOT(self.cmp('ult' if pred[0] == 'u' else 'slt', a, b))
        ca, cb = pconst(a), pconst(b)
        if pred == 'eq':
            d = padd(a, b, -1)
            c = pconst(d)
            if c is not None:
                return 1 if c == 0 else 0
            cs = dict(d[2]).get((), 0)
            body = P(w, {k: x for k, x in d[2] if k != ()})
            k = self.kx_end(body, cs)
            if k is not None:
                return k
            # sign: first monomial has a non-negative coefficient
            if body[2][0][1] >> (w - 1):
                body = P(w, {k: -x for k, x in body[2]})
                cs = -cs
            n = (-cs) & ((1 << w) - 1)      # body == n
            at = patom(body)
            if at is not None:
                if at[0] in ('zext',) and at[2][0] == 'p':
                    sw = at[2][1]
                    if n >> sw:
                        return 0
                    return self.cmp('eq', at[2], K(sw, n))
                if at[0] == 'zextb':
                    return at[1] if n == 1 else B.NOT(at[1])
                return B.AND(self.ultc(body, n + 1), B.NOT(self.ultc(body, n)))
            return B.var(('eq', body, n))
        if ca is not None and cb is not None:
            x, y = (ca, cb) if pred == 'ult' else (sconst(a), sconst(b))
            return 1 if x < y else 0
        if pred == 'slt':
            # non-negative operands compare as unsigned
            if self.nonneg(a) and self.nonneg(b):
                pred = 'ult'
        if pred == 'ult':
            if cb is not None:
                at = patom(a)
                if at is not None and at[0] == 'zext' and at[2][0] == 'p':
                    sw = at[2][1]
                    if cb >> sw:
                        return 1
                    return self.cmp('ult', at[2], K(sw, cb))
                return self.ultc(a, cb)
            if ca is not None:
                return B.NOT(self.cmp('ult', b, K(w, ca + 1))) if ca + 1 < (1 << w) else 0
            x, y = patom(a), patom(b)
            if x is not None and y is not None and x[0] == 'zext' and y[0] == 'zext' and \
                    x[2][0] == y[2][0] == 'p' and x[2][1] == y[2][1]:
                return self.cmp('ult', x[2], y[2])
            return B.var(('ult', a, b))
        if a == b:
            return 0
        if pred == 'slt' and cb == 0 and self.nonneg(a):
            return 0
        return B.var(('slt', a, b))

    def kx_end(self, body, cs):
        """counter after the loop == trip count: the loop was not left early."""
        ks = {a for k, _ in body[2] for a in k if a[0] == 'kx'}
        if len(ks) != 1:
            return None
        at = ks.pop()
        l = self.loops[at[1]]
        w = body[1]
        d = dict(body[2])
        c = d.pop((at,), None)
        if c is None or l.trip is None or l.trip_at != 'header' or any(at in k for k in d):
            return None
        if c >> (w - 1):
            c = (1 << w) - c
            rest = P(w, d)
            rest = padd(rest, K(w, cs))
        else:
            rest = P(w, {k: -x for k, x in d.items()})
            rest = padd(rest, K(w, -cs))
        t = self.divterm('div', rest, K(w, c))
        # pointers of the loop may be seen from outside as well
        if t == l.trip or self.outer(l.trip, l) == t:
            return self.exitc_trip(l)
        return None

    def outer(self, t, l):
        """t as seen from outside the loops around l."""
        return self.escape(t, l.parent, None)

    def escape(self, t, l, ctx):
        """t, computed inside loop l, as seen from ctx outside of it."""
        m = {}
        while l is not None and not self.within(l, ctx):
            m[('iv', l.id)] = ('kx', l.id)
            l = l.parent
        return self.rename(t, m) if m else t

    def rename(self, t, m, memo=None):
        """Rename atoms everywhere, below quantifiers and in conditions."""
        B = self.B
        memo = {} if memo is None else memo

        def hit(x):
            return any(y in m for y in B_sub(x))

        def B_sub(x):
            seen, st = set(), [x]
            while st:
                y = st.pop()
                if not isinstance(y, tuple) or y in seen:
                    continue
                seen.add(y)
                yield y
                if y and y[0] == 'b':
                    st += [B.atoms[v] for v in B.support(y[1])]
                elif y and y[0] in ('ex', 'EX') and len(y) == 3:
                    st += [B.atoms[v] for v in B.support(y[2])]
                elif y and y[0] == 'ite':
                    for c, z in y[1]:
                        st += [B.atoms[v] for v in B.support(c)]
                st += [z for z in y if isinstance(z, tuple)]

        def bn(n):
            if n <= 1:
                return n
            k = ('B', n)
            if k not in memo:
                v, lo, hi = B.nodes[n]
                a = B.atoms[v]
                if not hit(a):
                    c = B.var(a)
                else:
                    x = go(a)
                    c = None
                    if x[0] == 'ltc' and x[1][0] == 'p':
                        c = self.cmp('ult', x[1], K(x[1][1], x[2]))
                    elif x[0] in ('ult', 'slt') and x[1][0] == x[2][0] == 'p':
                        c = self.cmp(x[0], x[1], x[2])
                    elif x[0] == 'eq' and x[1][0] == 'p':
                        c = self.cmp('eq', x[1], K(x[1][1], x[2]))
                    if c is None:
                        c = B.var(x)
                memo[k] = B.ite(c, bn(hi), bn(lo))
            return memo[k]

        def go(x):
            if not isinstance(x, tuple):
                return x
            if x in m:
                return m[x]
            if x in memo:
                return memo[x]
            if x and x[0] == 'p' and len(x) == 3:
                r = P(x[1], {tuple(sorted((go(a) for a in k), key=skey)): c for k, c in x[2]})
            elif x and x[0] == 'f' and len(x) == 2 and isinstance(x[1], tuple):
                r = Ff({tuple(sorted((go(a) for a in k), key=skey)): c for k, c in x[1]})
            elif x and x[0] == 'b' and len(x) == 2:
                r = ('b', bn(x[1]))
            elif x and x[0] == 'ite':
                r = self.mkite([(bn(c), go(y)) for c, y in x[1]])
            elif x and x[0] in ('ex', 'EX') and len(x) == 3:
                r = (x[0], go(x[1]), bn(x[2]))
            else:
                r = tuple(go(y) for y in x)
            memo[x] = r
            return r
        return go(t) if hit(t) else t

    def exitc_trip(self, l):
        B = self.B
        r = 1
        for e in l.exits:
            if e == l.trip_edge:
                continue
            c = self.edge(e[0], e[1], l)
            r = B.AND(r, B.NOT(B.var(('ex', l.id, c))))
        return r

    def nonneg(self, a):
        c = sconst(a) if a[0] == 'p' else None
        if c is not None:
            return c >= 0
        at = patom(a)
        if at is None:
            return False
        return at[0] in ('zext', 'iv', 'kx') or (at[0] == 'div' and self.isdiff(at[1])) or at[0] == 'urem'

    @staticmethod
    def isdiff(p):
        """end - begin of a container."""
        d = dict(p[2])
        return len(d) == 2 and sorted(d.values()) == [1, (1 << p[1]) - 1]

    def ultc(self, body, n):
        w = body[1]
        if n <= 0:
            return 0
        if n >= (1 << w):
            return 1
        return self.B.var(('ltc', body, n))

    def fcmp(self, pred, a, b):
        B = self.B
        ka, kb = fconst(a), fconst(b)
        if ka is not None and kb is not None:
            r = {'lt': ka < kb, 'le': ka <= kb, 'gt': ka > kb, 'ge': ka >= kb, 'eq': ka == kb, 'ne': ka != kb}
            if pred[1:] in r:
                return 1 if r[pred[1:]] else 0
            if pred in ('ord', 'true'):
                return 1
            return 0
        sw = skey(a) > skey(b)
        if sw:
            a, b = b, a
            pred = {'olt': 'ogt', 'ogt': 'olt', 'ole': 'oge', 'oge': 'ole', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge',
                    'uge': 'ule'}.get(pred, pred)
        lt, gt, eq = (B.var(('f' + r, a, b)) for r in ('lt', 'gt', 'eq'))
        # lt, gt and eq are mutually exclusive: encode by priority
        lt, gt, eq = lt, B.AND(B.NOT(lt), gt), B.AND(B.NOT(lt), B.NOT(gt), eq)
        o = B.OR(lt, gt, eq)
        m = {'olt': lt, 'ogt': gt, 'oeq': eq, 'ole': B.OR(lt, eq), 'oge': B.OR(gt, eq), 'one': B.OR(lt, gt), 'ord': o,
             'false': 0, 'true': 1}
        if pred in m:
            return m[pred]
        neg = {'ult': 'oge', 'ugt': 'ole', 'ule': 'ogt', 'uge': 'olt', 'une': 'oeq', 'ueq': 'one', 'uno': 'ord'}[pred]
        return B.NOT(m[neg])

    def axioms(self, *fs):
        """Ordering constraints between constant comparisons of the same term."""
        B = self.B
        sup = set()
        for f in fs:
            sup |= B.support(f)
        groups = {}
        for v in sup:
            a = B.atoms[v]
            if a[0] == 'ltc':
                groups.setdefault(a[1], []).append(a[2])
        r = 1
        for body, ns in groups.items():
            ns = sorted(set(ns))
            for x, y in zip(ns, ns[1:]):
                r = B.AND(r, B.ite(B.var(('ltc', body, x)), B.var(('ltc', body, y)), 1))
        return r

    def same(self, f, g, under=1):
        x = self.B.XOR(f, g)
        return self.B.AND(x, self.axioms(f, g, under), under) == 0

    # -------------------------------------------------------------- path conditions
    def edge_local(self, u, v):
        """Branch condition of edge u->v in block u."""
        B = self.B
        fn = self.fn
        t = fn.term(u)
        ctx = self.loop_of[u]
        if t.op == 'br':
            if len(t.ops) == 1:
                return 1
            f, tr = t.ops[1][1], t.ops[2][1]
            if f == tr:
                return 1
            c = self.asbool(self.term(t.ops[0], ctx))
            return c if v == tr else B.NOT(c)
        if t.op == 'switch':
            x = self.term(t.ops[0], ctx)
            r, oth = 0, 0
            for k in range(2, len(t.ops), 2):
                c = self.lift(lambda y: ('b', self.cmp('eq', y, K(y[1], int(t.ops[k][2])) if y[0] == 'p' else y)), x)
                c = self.asbool(c) if c else B.var(('sw', u, k))
                oth = B.OR(oth, c)
                if t.ops[k + 1][1] == v:
                    r = B.OR(r, c)
            if t.ops[1][1] == v:
                r = B.OR(r, B.NOT(oth))
            return r
        return 1

    def is_trip(self, u, v):
        l = self.loop_of[u]
        return l is not None and l.trip_edge is not None and l.trip_edge[0] == u

    def node(self, b, region):
        """Block itself, or the child loop of region containing it."""
        l = self.loop_of[b]
        if l is region:
            return b
        while l is not None and l.parent is not region:
            l = l.parent
        return l

    def region_reach(self, region):
        key = region.id if region else None
        R = self.reachm.get(key)
        if R is None:
            R = self.reachm[key] = Reach(self, region)
        return R

    @staticmethod
    def nkey(n):
        return ('L', n.id) if isinstance(n, Loop) else n

    def edge(self, u, v, region):
        """Condition, within one iteration of region, of taking edge u->v (u not inside v's inner loop)."""
        B = self.B
        n = self.node(u, region)
        R = self.region_reach(region)
        r = R.get(self.nkey(n))
        if r is None:
            return B.var(('irr', u, v))
        if isinstance(n, Loop):
            return B.AND(r, self.exitc(n, u, v))
        if self.is_trip(u, v) and region is self.loop_of[u]:
            return r if v in region.blocks else B.AND(r, B.var(('trip', region.id)))
        return B.AND(r, self.edge_local(u, v))

    def exitc(self, l, u, v):
        B = self.B
        if len(l.exits) == 1:
            return 1
        brk = {}
        for e in l.exits:
            if e == l.trip_edge:
                continue
            c = self.edge(e[0], e[1], l)
            brk[e] = B.var(('ex', l.id, c))
        if (u, v) == l.trip_edge:
            r = 1
            for x in brk.values():
                r = B.AND(r, B.NOT(x))
            return r
        return brk.get((u, v), 1)

    def cond(self, b):
        """Condition of block b within one iteration of its innermost loop."""
        r = self.region_reach(self.loop_of[b]).get(b)
        return 0 if r is None else r

    def full(self, b):
        """Conjunction over all enclosing loops (counters of the loops distinguish iterations)."""
        B = self.B
        r = self.cond(b)
        l = self.loop_of[b]
        while l is not None:
            p = l.parent
            r = B.AND(r, self.region_reach(p).get(self.nkey(l), 0))
            l = p
        return r

    def phi(self, ins, ctx):
        fn, B = self.fn, self.B
        l = self.loop_of[ins.bb]
        ty = ins['ty']
        if l is not None and l.header == ins.bb:
            if ins.id in self.resolved:
                return self.resolved[ins.id]()
            iv = l.ivs.get(ins.id)
            w = width(ty)
            if iv is not None:
                i0, step = iv
                return self.lift(lambda x: padd(x, pmul(step, A(w, ('iv', l.id)))), i0)
            if not self.within(l, ctx) and ins.id in l.flags:
                c, x, i0 = l.flags[ins.id]
                e = B.var(('ex', l.id, c)) if c > 1 else c
                if x[0] == 'b':
                    return ('b', B.ite(e, x[1], i0[1]))
                return self.mkite([(e, x), (B.NOT(e), i0)])
            # loop invariant phi
            u = l.update.get(ins.id)
            if u is not None and u[0] == u[1]:
                return u[0]
            if w == 1:
                return ('b', B.var(self.hphi(ins, ctx, 'bphi')))
            if w:
                return A(w, self.hphi(ins, ctx))
            return self.typed(self.hphi(ins, ctx), ty)
        alts = []
        care = 0
        terms = []
        for v, p in ins['in']:
            if p not in self.live:
                continue
            # a value computed inside a loop that p leaves is seen from this block
            lp = self.loop_of[p]
            t = self.term(v, ctx)
            if lp is not None and ins.bb not in lp.blocks and t[0] in ('b', 'ite') and not self.is_trip(p, ins.bb):
                t = self.escape(self.exitval(v, p, ins.bb, lp), lp, ctx)
            c = self.edge(p, ins.bb, l)
            alts.append([c, t])
            care = B.OR(care, c)
        if all(a[1] == alts[0][1] for a in alts):
            return alts[0][1]
        if care == 0:
            return self.typed(('opq', ins.id), ty)
        return self.mkite([(B.constrain(c, care), t) for c, t in alts])

    # -------------------------------------------------------------- memory
    def load(self, ins, ctx):
        a = self.term(ins.ops[0], ctx)
        ty, sz = ins['ty'], ins['sz'] if 'sz' in ins.d else None

        def f(x):
            if x[0] != 'p':
                return self.typed(('ld', ty, x), ty)
            return self.value_before(x, ty, ins, ctx)
        return self.lift(f, a) or self.typed(('ld', ty, a), ty)

    def stores(self):
        if not hasattr(self, '_stores'):
            self._stores = [i for i in self.fn.all() if i.op == 'store']
        return self._stores

    def initial(self, addr, ty, tag=None):
        if ty == 'ptr':
            ty = 'i64'
        at = ('ld', ty, addr) if tag is None else ('ldv', ty, addr, tag)
        return self.typed(at, ty)

    def value_before(self, addr, ty, ins, ctx):
        """Value of memory [addr] of type ty just before instruction ins."""
        key = (addr, ty, ins.id)
        if key in self.vmemo:
            return self.vmemo[key]
        fn = self.fn
        outer, self.cyc = self.cyc, set()
        r = self.scan(addr, ty, ins.bb, ins.idx, {}, ctx)
        if not self.cyc:
            self.vmemo[key] = r
        self.cyc |= outer
        return r

    def abase(self, o):
        """Structural base of an address: (root atom or None, constant offset or None)."""
        if o[0] == 'g':
            return ('glob', o[1]), o[2]
        if o[0] != 'v':
            return None, None
        v = o[1]
        if v in self.basem:
            return self.basem[v]
        self.basem[v] = (None, None)
        r = (None, None)
        if v in self.argi:
            i = self.argi[v]
            if i in self.argvals:
                root, off = root_off(self.argvals[i]) if self.argvals[i][0] == 'p' else (None, None)
                r = (patom(root), off) if root is not None and patom(root) is not None else (None, None)
            else:
                r = (('arg', i), 0)
        else:
            i = self.fn.insts[v]
            if i.op == 'alloca':
                r = (('alloca', v), 0)
            elif i.op == 'getelementptr' and 'base' in i.d:
                b, off = self.abase(i['base'])
                r = (b, off + i['off'] if off is not None and not i.get('idx') and not i.get('bad') else None)
            elif i.op in ('bitcast', 'freeze', 'addrspacecast', 'inttoptr', 'ptrtoint'):
                r = self.abase(i.ops[0])
            elif i.op in ('phi', 'select'):
                srcs = [x for x, _ in i['in']] if i.op == 'phi' else i.ops[1:]
                bs = [self.abase(x) for x in srcs if not (x[0] == 'v' and x[1] == v)]
                known = {x[0] for x in bs if x[0] is not None}
                if len(known) == 1:
                    b = known.pop()
                    same = len({x for x in bs}) == 1
                    r = (b, bs[0][1] if same and i.op == 'select' else None)
        self.basem[v] = r
        return r

    def clobber(self, ins, addr, ty):
        """None (no effect), ('val', thunk) or ('clob',).  Pointers with different roots do not alias."""
        root, off = root_off(addr)
        ra = patom(root)
        if ins.op == 'store':
            b, o = self.abase(ins.ops[1])
            if b is None:
                if self.nested and self.vorigin(ins.ops[1]) & self.torigin(addr):
                    sa = self.term(ins.ops[1], self.loop_of[ins.bb])
                    if sa == addr and self.sametype(ins.get('sty'), ty):
                        return ('val', lambda: self.term(ins.ops[0], self.loop_of[ins.bb]))
                    if sa[0] == 'p':
                        (r1, o1), (r2, o2) = root_off(sa), root_off(addr)
                        if r1 == r2 and (o1 + ins.get('ssz', 8) <= o2 or o2 + self.tysz(ty) <= o1):
                            return None
                    return ('clob',)
                return None
            if ra is None:
                if any(b in k for k, _ in root[2]):
                    sa = self.term(ins.ops[1], self.loop_of[ins.bb])
                    if sa == addr and self.sametype(ins.get('sty'), ty):
                        return ('val', lambda: self.term(ins.ops[0], self.loop_of[ins.bb]))
                    if sa[0] == 'p' and root_off(sa)[0] == root:
                        o2 = root_off(sa)[1]
                        if o2 + ins.get('ssz', 8) <= off or off + self.tysz(ty) <= o2:
                            return None
                    return ('clob',)
                return None
            if b != ra:
                return None
            if o is None:
                sa = self.term(ins.ops[1], self.loop_of[ins.bb])
                if sa[0] == 'p':
                    r2, o = root_off(sa)
                    if r2 != root:
                        return ('clob',) if b[0] == 'alloca' else None
                else:
                    return ('clob',)
            if o == off and self.sametype(ins.get('sty'), ty):
                return ('val', lambda: self.term(ins.ops[0], self.loop_of[ins.bb]))
            n, k = ins.get('ssz', 8), self.tysz(ty)
            if o + n <= off or off + k <= o:
                return None
            return ('clob',)
        if ins.op in ('call', 'invoke'):
            if self.ignore is not None and self.ignore(self, ins):
                return None
            intr = ins.get('intr', '')
            if self.nested and (ra is None or ra[0] in ('ld', 'ldv')) and not intr.startswith(NOEFFECT) and \
                    not any(f(ins.get('dem', '')) for f in list(self.readonly) + list(self.pure)):
                for x in ins['args']:
                    if x[0] != 'v' or self.abase(x)[0] is not None:
                        continue
                    n = self.partsize(ins, x)
                    if n is None and x != ins['args'][0]:
                        continue
                    if self.vorigin(x) & self.torigin(addr):
                        if n is not None:
                            sa = self.term(x, self.loop_of[ins.bb])
                            if sa[0] == 'p':
                                r2, o2 = root_off(sa)
                                if r2 == root and (o2 + n <= off or off + self.tysz(ty) <= o2):
                                    continue
                        return ('clob',)
            if ra is None and not any(a[0] == 'alloca' for k, _ in root[2] for a in k):
                return None
            mine = {ra} if ra is not None else {a for k, _ in root[2] for a in k if a[0] == 'alloca'}
            if intr.startswith(NOEFFECT):
                if intr == 'llvm.lifetime.start':
                    b, _ = self.abase(ins['args'][1])
                    if b in mine:
                        return ('val', lambda: ('undef',))
                return None
            if any(f(ins.get('dem', '')) for f in self.readonly):
                return None
            args = ins['args']
            if intr.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                b, o2 = self.abase(args[0])
                if b not in mine:
                    return None
                n = args[2]
                n = int(n[2]) if n[0] == 'i' else None
                if o2 is None or n is None or ra is None:
                    return ('clob',)
                k = self.tysz(ty)
                if off + k <= o2 or o2 + n <= off:
                    return None
                if not (o2 <= off and off + k <= o2 + n):
                    return ('clob',)
                l = self.loop_of[ins.bb]
                if intr.startswith('llvm.memset'):
                    v = args[1]
                    if v[0] == 'i' and int(v[2]) == 0:
                        w = width(ty)
                        return ('val', lambda: ('b', 0) if w == 1 else K(w, 0) if w else FK(0))
                    return ('clob',)

                def copied():
                    src = self.term(args[1], l)
                    if src[0] != 'p':
                        return self.initial(addr, ty, ins.id)
                    return self.value_before(padd(src, K(64, off - o2)), ty, ins, l)
                return ('val', copied)
            for x in args:
                b, o2 = self.abase(x)
                if b is not None and b in mine and (b[0] == 'alloca' or self.argwrites(ins, x)):
                    if self.beyond(ins, x, o2, off):
                        continue
                    return ('clob',)
            return None
        return None

    def okey(self, base, off):
        """Object that a pointer is loaded from: root and the member that holds it."""
        if off is not None:
            for lo, n in self.regions:
                if lo <= off < lo + n:
                    off = lo
            if base[0] == 'alloca' and off < 24:
                off = 0
        return (base, off)

    def torigin(self, t):
        """Objects that the pointers in an address were loaded from."""
        out = set()
        for k, _ in t[2]:
            for x in k:
                if x[0] in ('ld', 'ldv') and x[1] == 'i64':
                    r, off = root_off(x[2])
                    ra = patom(r)
                    if ra is not None and ra[0] in ('arg', 'alloca', 'glob'):
                        out.add(self.okey(ra, off))
                    else:
                        sub = self.torigin(x[2])
                        if sub:
                            out.add(('*', frozenset(sub)))
        return out

    def vorigin(self, o):
        """The same for an operand, read off the definitions."""
        if o[0] != 'v':
            return frozenset()
        v = o[1]
        if v in self.orig:
            return self.orig[v]
        self.orig[v] = frozenset()
        i = self.fn.insts.get(v)
        out = set()
        if i is not None:
            if i.op == 'load':
                b, off = self.abase(i.ops[0])
                if b is not None:
                    out.add(self.okey(b, off))
                else:
                    sub = self.vorigin(i.ops[0])
                    if sub:
                        out.add(('*', sub))
            elif i.op == 'getelementptr' and 'base' in i.d:
                out |= self.vorigin(i['base'])
            elif i.op in ('phi', 'select'):
                for x in [x for x, _ in i['in']] if i.op == 'phi' else i.ops[1:]:
                    out |= self.vorigin(x)
            elif i.op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint', 'add'):
                for x in i.ops:
                    out |= self.vorigin(x)
        self.orig[v] = frozenset(out)
        return self.orig[v]

    @staticmethod
    def sametype(a, b):
        return a == b or {a, b} == {'ptr', 'i64'}

    def argwrites(self, ins, x):
        """Calls that receive the address of (part of) a caller's object may modify that part."""
        return self.track_args

    def beyond(self, ins, x, o2, off):
        """The part of the object handed to the call (a member subobject) does not include off."""
        sz = self.partsize(ins, x)
        return o2 is not None and sz is not None and not (o2 <= off < o2 + sz)

    def partsize(self, ins, x):
        """Size of the object that the first argument of a member function points to."""
        if not ins['args'] or x != ins['args'][0]:
            return None
        d = ins.get('dem', '')
        for pat, n in self.member_sizes:
            if pat(d):
                return n
        return None

    @staticmethod
    def tysz(ty):
        w = width(ty)
        if w:
            return max(1, w//8)
        return {'double': 8, 'float': 4, 'half': 2}.get(ty, 8)

    def scan(self, addr, ty, b, idx, memo, ctx):
        fn, B = self.fn, self.B
        for ins in reversed(fn.bb[b][:idx] if idx is not None else fn.bb[b]):
            c = self.clobber(ins, addr, ty) if ins.op in ('store', 'call', 'invoke') else None
            if c is not None:
                if c[0] == 'val':
                    return c[1]()
                return self.initial(addr, ty, ins.id)
        if b == fn.entry:
            return self.initial(addr, ty)
        if b in memo:
            r = memo[b]
            return r if r is not None else self.initial(addr, ty, ('loop', b))
        memo[b] = None
        l = self.loop_of[b]
        if l is not None and l.header == b:
            mod = False
            for bb in l.blocks:
                for ins in fn.bb[bb]:
                    if ins.op in ('store', 'call', 'invoke') and self.clobber(ins, addr, ty) is not None:
                        mod = True
                        break
                if mod:
                    break
            if mod:
                r = self.initial(addr, ty, ('loop', b))
                memo[b] = r
                return r
            preds = [p for p in fn.pred[b] if p not in l.blocks and p in self.live]
            region = l.parent
        else:
            preds = [p for p in fn.pred[b] if p in self.live]
            region = l
        vals = [(p, self.scan(addr, ty, p, None, memo, ctx)) for p in preds]
        if all(v == vals[0][1] for _, v in vals):
            r = vals[0][1]
        else:
            alts, care = [], 0
            for p, v in vals:
                c = self.edge(p, b, region)
                care = B.OR(care, c)
                alts.append((c, v))
            r = self.mkite([(B.constrain(c, care) if care else c, v) for c, v in alts])
        memo[b] = r
        return r

    # -------------------------------------------------------------- calls
    def call(self, ins, ctx):
        dem = ins.get('dem', '')
        intr = ins.get('intr', '')
        ty = ins['ty']
        if intr.startswith('llvm.expect'):
            return self.term(ins['args'][0], ctx)
        args = tuple(self.term(x, ctx) for x in ins['args'])
        base = intr[5:] if intr.startswith('llvm.') else ''
        if base in ('umin', 'umax', 'smin', 'smax'):
            def f(x, y):
                p = ('ult' if base[0] == 'u' else 'slt')
                c = self.cmp(p, x, y)
                if base[1:] == 'max':
                    c = self.cmp(p, y, x)
                return self.mkite([(c, x), (self.B.NOT(c), y)])
            return self.lift(f, *args)
        if base == 'fabs':
            return FA(('fabs', args[0]))
        if any(f(dem) for f in self.pure) or base in ('ctlz', 'cttz', 'ctpop', 'bswap', 'abs'):
            return self.typed(('call', dem or intr, args), ty)
        return self.typed(('call', dem or intr, args, ins.id), ty)

    # -------------------------------------------------------------- effects
    def effects(self):
        out = []
        for b in self.fn.rpo():
            for i in self.fn.bb[b]:
                if i.op in ('call', 'invoke') and not i.get('intr', '').startswith(NOEFFECT):
                    out.append(i)
                elif i.op in ('store', 'ret'):
                    out.append(i)
        return out

    def args(self, ins):
        return [self.term(a, self.loop_of[ins.bb]) for a in ins['args']]


# ------------------------------------------------------------------ printing
def show(t, B=None, names=None, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if d > 12:
        return '...'
    s = lambda x: show(x, B, names, d + 1)
    k = t[0] if t else ''
    if names is not None:
        n = names(t)
        if n:
            return n
    if k == 'p':
        out = []
        w = t[1]
        for m, c in t[2]:
            c = c - (1 << w) if c >> (w - 1) else c
            if not m:
                out.append(str(c))
            else:
                out.append(('' if c == 1 else '-' if c == -1 else '%d*' % c) + '*'.join(s(a) for a in m))
        return '(' + ' + '.join(out).replace('+ -', '- ') + ')' if len(out) != 1 else out[0] if out else '0'
    if k == 'f':
        out = [('' if c == 1 and m else '%s%s' % (c, '*' if m else '')) + '*'.join(s(a) for a in m) for m, c in t[1]]
        return '(' + ' + '.join(out) + ')' if len(out) != 1 else out[0] if out else '0.0'
    if k == 'b':
        return showb(B, t[1], names, d + 1) if B else 'b%d' % t[1]
    if k == 'ite':
        return '{' + '; '.join('%s if %s' % (s(x), showb(B, c, names, d + 1) if B else c) for c, x in t[1]) + '}'
    if k == 'ld':
        return '[' + s(t[2]) + ']'
    if k == 'ldv':
        return '[' + s(t[2]) + ']@%s' % (t[3],)
    if k == 'arg':
        return 'arg%d' % t[1]
    if k == 'iv':
        return 'K%d' % t[1]
    if k == 'call':
        return t[1].split('(')[0].split('::')[-1] + '(' + ', '.join(s(x) for x in t[2]) + ')'
    if k in ('zext', 'sext', 'trunc'):
        return '%s(%s)' % (k, s(t[2]))
    if k == 'ex':
        return 'exists%d(%s)' % (t[1], showb(B, t[2], names, d + 1) if B else t[2])
    if k in ('ltc',):
        return '%s < %d' % (s(t[1]), t[2])
    if k == 'ult':
        return '%s < %s' % (s(t[1]), s(t[2]))
    return k + '(' + ', '.join(s(x) for x in t[1:]) + ')' if isinstance(k, str) else str(t)


def showb(B, f, names=None, d=0):
    if f == 0:
        return 'false'
    if f == 1:
        return 'true'
    # sum of cubes
    cubes = []

    def go(x, acc):
        if len(cubes) > 6:
            return
        if x == 0:
            return
        if x == 1:
            cubes.append(acc)
            return
        v, lo, hi = B.nodes[x]
        go(hi, acc + [(v, True)])
        go(lo, acc + [(v, False)])
    go(f, [])
    out = []
    for c in cubes[:6]:
        out.append(' & '.join(('' if pol else '!') + '(' + show(B.atoms[v], B, names, d + 1) + ')' for v, pol in c))
    return ' | '.join(out) + (' | ...' if len(cubes) > 6 else '')
