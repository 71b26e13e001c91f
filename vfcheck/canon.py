"""Comparison of gated summaries with a specification.

Both sides are terms and BDD conditions over the same atoms (terms.py).  They are first compared
structurally, after quantifiers over loops are normalised.  A structural difference alone is not
reported: it could be one that canonicalisation does not see through.  It is reported only when
every leaf of the difference is an input of the function (argument, initial memory, loop counter,
uninterpreted call) and a valuation of those leaves makes the two sides differ; then the summaries
denote different functions.  Everything else is undecided.
"""
import random
from fractions import Fraction as Fr
from .terms import *

LEAF = {'arg', 'ld', 'iv', 'qv', 'glob', 'fn', 'alloca', 'sym'}
OPS = {'zext', 'sext', 'trunc', 'div', 'urem', 'srem', 'and', 'or', 'xor', 'lshr', 'shl', 'ashr', 'fpext', 'fptrunc', 'uitofp',
       'sitofp', 'fabs', 'inv', 'ex', 'EX', 'ult', 'slt', 'ltc', 'eq', 'flt', 'fgt', 'feq', 'zextb', 'op', 'fspecial',
       'bool', 'fptosi', 'fptoui'}

FOLD = {'div', 'urem', 'srem', 'and', 'or', 'xor', 'op'}


class Skip(Exception):
    pass


class Canon:
    def __init__(self, g, calls=(), leaf=None, vecsize=None, extra=(), roots=()):
        """calls: predicates on names of calls that may be treated as uninterpreted functions.
        leaf(atom, args, rnd): value of a leaf or None; extra: further atom kinds accepted as leaves."""
        self.g, self.B = g, g.B
        self.foreign = None
        self.calls = calls
        self.leaf = leaf
        self.vecsize = vecsize
        self.vec = {}
        self.extra = set(extra)
        self.tmemo = {}
        self.nmemo = {}
        self.rec = None         # brings the parts of a recurrence into the form of the comparison
        self.recs = {}
        self.forms = {}

    # ---------------------------------------------------------------- understood
    def unknown(self, t, seen=None):
        """A description of a part of t whose meaning the analysis does not know, or None."""
        seen = set() if seen is None else seen
        st = [t]
        while st:
            x = st.pop()
            if not isinstance(x, tuple) or not x or x in seen:
                continue
            seen.add(x)
            k = x[0]
            if not isinstance(k, str):
                st += list(x)
                continue
            if k in ('ld', 'ldv') and self.foreign and self.foreign(x):
                return 'a member that the rules do not know'
            if k in ('p', 'f'):
                st += [a for m, _ in x[1 if k == 'f' else 2] for a in m]
                continue
            if k == 'b':
                st += [self.B.atoms[v] for v in self.B.support(x[1])]
                continue
            if k == 'ite':
                for c, y in x[1]:
                    st += [self.B.atoms[v] for v in self.B.support(c)]
                    st.append(y)
                continue
            if k in ('ex', 'EX'):
                st += [self.B.atoms[v] for v in self.B.support(x[2])]
                if k == 'ex':
                    st.append(self.g.loops[x[1]].trip or ('opq',))
                else:
                    st.append(x[1])
                continue
            if k in ('hphi', 'bphi') and len(x) == 3 and k not in self.extra:
                u = self.recurrence(x[1])
                if u is None:
                    return '%s' % (x[:2],)
                st += [*u[:2], *x[2]]
                continue
            if k in ('iv', 'kx'):
                if self.g.loops[x[1]].trip is None and 'anytrip' not in self.extra:
                    return 'counter of a loop with unknown bounds'
                continue
            if k == 'ld':
                a = x[2]
                if any(isinstance(y, tuple) and y and y[0] == 'alloca' for y in subterms(a)):
                    return 'memory of a local'
                st.append(a)
                continue
            if k in ('ev', 'callv') and 'ev' in self.extra:
                st += [y for y in x[1:] if isinstance(y, tuple)]
                continue
            if k == 'call' and (len(x) == 3 or any(f(x[1]) for f in self.calls)):
                st += list(x[2])
                continue
            if k in self.extra or k in ('arg', 'qv', 'glob', 'fn', 'sym', 'const', 'fspecial'):
                continue
            if k == 'op':
                if x[1] not in EVOP:
                    return 'operation ' + str(x[1])
                st += list(x[2:])
                continue
            if k in OPS:
                st += [y for y in x[1:] if isinstance(y, tuple)]
                continue
            if k == 'alloca':
                continue
            return '%s' % (x[:2],)
        return None

    def recurrence(self, pid):
        """(initial value, value after an iteration, loop) of a header phi, or None if it depends on changing memory."""
        if pid not in self.recs:
            got = {}
            bad = not self.close(pid, got)
            for k, v in got.items():
                self.recs[k] = None if bad else v
            self.recs.setdefault(pid, None)
        return self.recs[pid]

    def form(self, t):
        """t in the form of the comparison."""
        if self.rec is None:
            return t
        if t not in self.forms:
            self.forms[t] = self.rec(t)
        return self.forms[t]

    def close(self, pid, got):
        """Collect the recurrences that one consists of."""
        if pid in got:
            return True
        if pid in self.recs:
            return self.recs[pid] is not None
        g = self.g
        ins = g.fn.insts.get(pid)
        l = g.loop_of[ins.bb] if ins is not None else None
        u = next(((i0, t) for p, i0, t in g.header_updates(l) if p.id == pid), None) if l is not None else None
        if u is None or self.rec is None or any(x[0] == 'multi' for x in u):
            return False
        got[pid] = u = tuple(self.rec(x) for x in u) + (l,)
        for t in u[:2]:
            for x in self.walk(t):
                if x[0] in ('ldv', 'ev', 'callv', 'multi', 'opq', 'cyc') or x[0] == 'call' and len(x) > 3:
                    return False
                if x[0] in ('hphi', 'bphi') and not self.close(x[1], got):
                    return False
        return True

    # ---------------------------------------------------------------- quantifiers
    def subst(self, t, f):
        """Rewrite atoms bottom up; f(atom) -> replacement atom or term (or None)."""
        key = (t, f)
        if key in self.tmemo:
            return self.tmemo[key]
        r = self._subst(t, f)
        self.tmemo[key] = r
        return r

    def _subst(self, t, f):
        if not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if not isinstance(k, str):
            return tuple(self.subst(x, f) for x in t)
        if k == 'p':
            r = K(t[1], 0)
            for m, c in t[2]:
                q = K(t[1], c)
                for a in m:
                    x = self.satom(a, f, t[1])
                    q = pmul(q, x)
                r = padd(r, q)
            return r
        if k == 'f':
            r = FK(0)
            for m, c in t[1]:
                q = FK(c)
                for a in m:
                    x = self.subst(a, f)
                    y = f(x) or x
                    q = self.g.farith('fmul', q, y if y[0] == 'f' else FA(y))
                r = self.g.farith('fadd', r, q)
            return r
        if k == 'b':
            return ('b', self.bsubst(t[1], f))
        if k == 'ite':
            return self.g.mkite([(self.bsubst(c, f), self.subst(x, f)) for c, x in t[1]])
        if k == 'ex':
            return ('ex', t[1], self.bsubst(t[2], f))
        if k == 'EX':
            return ('EX', self.subst(t[1], f), self.bsubst(t[2], f))
        if k == 'trunc' and len(t) == 3 and isinstance(t[1], int) and t[2][0] != 'p':
            return ('P', k, self.satom(t[2], f, t[1]))
        if k in ('sext', 'zext', 'trunc') and len(t) == 3 and isinstance(t[1], int):
            y = self.subst(t[2], f)
            if y[0] == 'p':
                return ('P', t[0], y)
            return (k, t[1], y)
        return tuple(self.subst(x, f) if isinstance(x, tuple) else x for x in t)

    def satom(self, a, f, w):
        x = self.subst(a, f)
        y = f(x)
        if y is not None:
            return y if y[0] == 'p' else A(w, y)
        if x[0] == 'P':
            r = self.g.cast(x[1], x[2], w)
            return r if r[0] == 'p' else A(w, (x[1], w, x[2]))
        if x[0] == 'div' and x[1][0] == 'p' and x[2][0] == 'p' and pconst(x[2]):
            return self.g.divterm('div', x[1], x[2])
        if x[0] in FOLD and all(y[0] == 'p' and pconst(y) is not None for y in x[1:] if isinstance(y, tuple)):
            try:
                return K(w, self.evi(x, w, None))
            except (ZeroDivisionError, Skip, AttributeError):
                pass
        return A(w, x)

    def bsubst(self, n, f):
        B = self.B
        if n <= 1:
            return n
        key = ('B', n, f)
        if key in self.tmemo:
            return self.tmemo[key]
        v, lo, hi = B.nodes[n]
        c = self.batom(B.atoms[v], f)
        r = B.ite(c, self.bsubst(hi, f), self.bsubst(lo, f))
        self.tmemo[key] = r
        return r

    def batom(self, a, f):
        """BDD of the rewritten comparison atom."""
        key = ('A', a, f)
        if key in self.tmemo:
            return self.tmemo[key]
        g, B = self.g, self.B
        y0 = f(a)
        if y0 is not None:
            r = y0[1] if y0[0] == 'b' else B.var(y0)
        else:
            x = self.subst(a, f)
            k = x[0]
            y = f(x)
            if y is not None:
                r = y[1] if y[0] == 'b' else B.var(y)
            elif k == 'ltc' and x[1][0] == 'p':
                r = g.cmp('ult', x[1], K(x[1][1], x[2])) if x[2] < 1 << x[1][1] else 1
            elif k == 'ult' and x[1][0] == 'p' and x[2][0] == 'p':
                r = g.cmp('ult', x[1], x[2])
            elif k == 'slt' and x[1][0] == 'p' and x[2][0] == 'p':
                r = g.cmp('slt', x[1], x[2])
            elif k == 'eq' and x[1][0] == 'p':
                r = g.cmp('eq', x[1], K(x[1][1], x[2]))
            elif k in ('ult', 'slt', 'eq', 'ltc') and any(isinstance(z, tuple) and z[0] == 'ite' for z in x[1:]):
                r = self.redo(k, x)
            elif k == 'EX' and x[2] == 0:
                r = 0
            elif k == 'ex' and x[2] == 0:
                r = 0
            else:
                r = B.var(x)
        self.tmemo[key] = r
        return r

    def redo(self, k, x):
        g = self.g
        if k in ('ult', 'slt'):
            t = g.lift(lambda a, b: ('b', g.cmp(k, a, b)), x[1], x[2])
        elif k == 'ltc':
            t = g.lift(lambda a: ('b', g.cmp('ult', a, K(a[1], x[2])) if x[2] < 1 << a[1] else 1), x[1])
        else:
            t = g.lift(lambda a: ('b', g.cmp('eq', a, K(a[1], x[2]))), x[1])
        return g.asbool(t) if t is not None else self.B.var(x)

    def norm(self, *nodes, depth=0, env=()):
        """Replace loop quantifiers by canonical ones, jointly for all nodes."""
        B = self.B
        nodes = list(nodes)
        # innermost first: bodies become canonical, bound counters get their level as name
        sup = set()
        for n in nodes:
            sup |= B.support(n)
        exs = {}
        inner = dict(env)
        for v in sup:
            a = B.atoms[v]
            if a[0] == 'ex':
                l = self.g.loops[a[1]]
                if l.trip is None:
                    continue
                q = ('qv', depth)
                iv = ('iv', a[1])
                f = self.renamer(iv, q)
                body = self.bsubst(a[2], f)
                inner[iv] = q
                exs.setdefault(self.normt(l.trip, env), []).append((v, body))
            elif a[0] == 'EX':
                exs.setdefault(a[1], []).append((v, a[2]))
        repl = {}
        for trip, lst in exs.items():
            bodies = self.norm(*[b for _, b in lst], depth=depth + 1, env=tuple(inner.items()))
            regions = [1]
            for b in dict.fromkeys(bodies):
                regions = [x for r in regions for x in (B.AND(r, b), B.AND(r, B.NOT(b))) if x != 0]
                if len(regions) > 64:
                    break
            for (v, _), b in zip(lst, bodies):
                r = 0
                for x in regions:
                    if B.AND(x, B.NOT(b)) == 0:
                        r = B.OR(r, B.var(('EX', trip, x)))
                repl[v] = r if b != 0 else 0

        memo = {}

        def go(n):
            if n <= 1:
                return n
            if n in memo:
                return memo[n]
            v, lo, hi = B.nodes[n]
            c = repl.get(v)
            if c is None:
                c = self.normatom(B.atoms[v], depth)
            r = B.ite(c, go(hi), go(lo))
            memo[n] = r
            return r
        return [go(n) for n in nodes]

    def renamer(self, a, b):
        k = ('ren', a, b)
        if k not in self.nmemo:
            self.nmemo[k] = lambda x: b if x == a else None
        return self.nmemo[k]

    def normatom(self, a, depth):
        return self.B.var(a)

    def normt(self, t, env):
        for a, b in env:
            t = self.subst(t, self.renamer(a, b))
        return t

    def canon(self, *nodes):
        ns = self.norm(*nodes)
        return ns

    # ---------------------------------------------------------------- comparison
    def beq(self, f, spec, under=1, n=1500, seed=1):
        """Compare conditions -> (status, detail)."""
        B = self.B
        f2, s2, u2 = self.canon(f, spec, under)
        d = B.AND(B.XOR(f2, s2), u2)
        d = B.AND(d, self.g.axioms(f2, s2, u2)) if d else 0
        if d:
            d = B.AND(d, self.kxaxioms(d))
        if d == 0:
            return 'ok', ''
        u = self.unknown(('b', d))
        if u:
            return 'undecided', 'depends on ' + u
        w = self.witness(lambda e: self.evb(under, e) and self.evb(f, e) != self.evb(spec, e), [('b', f), ('b', spec), ('b', under)], n, seed)
        if w is None:
            return 'undecided', 'summaries differ in form but no valuation separates them'
        return 'violation', w.describe()

    def teq(self, t, spec, under=1, n=1500, seed=1):
        if t == spec:
            return 'ok', ''
        if t == ('undef',):
            return 'undecided', 'undefined value'
        if t[0] == 'b' or spec[0] == 'b':
            return self.beq(self.g.asbool(t), self.g.asbool(spec), under, n, seed)
        # under the condition, alternatives may be impossible
        t2, s2 = self.restrict(t, under), self.restrict(spec, under)
        if t2 == s2:
            return 'ok', ''
        u = self.unknown(t2) or self.unknown(t)
        if u:
            return 'undecided', 'depends on ' + u
        w = self.witness(lambda e: self.evb(under, e) and self.ev(t, e) != self.ev(spec, e), [t, spec, ('b', under)], n, seed)
        if w is None:
            return 'undecided', 'values differ in form but no valuation separates them'
        return 'violation', w.describe()

    def kxaxioms(self, *fs):
        """The loop was left in iteration kx: by then no break condition held, and if it was left by a
        break then that break's condition holds for kx."""
        g, B = self.g, self.B
        ls = set()
        for f in fs:
            for x in self.walk(('b', f)):
                if x[0] == 'kx':
                    ls.add(x[1])
        r = 1
        for i in ls:
            l = g.loops[i]
            if l.trip is None or l.trip_at != 'header':
                continue
            brk = 0
            for x in l.exits:
                if x != l.trip_edge:
                    brk = B.OR(brk, g.edge(x[0], x[1], l))
            ex, = self.norm(B.var(('ex', l.id, brk)))
            at = g.rename(('b', brk), {('iv', i): ('kx', i)})[1]
            r = B.AND(r, B.ite(ex, at, 1))
        return r

    def restrict(self, t, under):
        if t[0] == 'ite':
            B = self.B
            fs = [under] + [c for c, _ in t[1]]
            ns = self.norm(*fs)
            care = B.AND(ns[0], self.g.axioms(*ns), self.kxaxioms(*ns))
            if care == 0:
                return t
            alts = [(B.AND(c, care), x) for c, (_, x) in zip(ns[1:], t[1]) if B.AND(c, care) != 0]
            if len(alts) == 1:
                return alts[0][1]
            return self.g.mkite([(B.constrain(c, care), x) for c, x in alts]) if alts else t
        return t

    def witness(self, pred, ts, n, seed):
        consts = {0, 1, 2, 3}
        self.vec = {}
        ts = list(ts)
        ls = {x[1] for t in ts for x in self.walk(t) if x[0] == 'iv'}
        for l in [self.g.loops[i] for i in ls]:
            while l is not None and l.trip is not None:
                ts += [l.trip, ('b', self.g.region_reach(l.parent).get(self.g.nkey(l), 0))]
                l = l.parent
        for t in ts:
            for x in self.walk(t):
                if x[0] == 'div' and pconst(x[2]) and x[1][0] == 'p':
                    # (end - begin)/size: the end of a vector lies a whole number of elements past its begin
                    pos = [m for m, c in x[1][2] if c == 1 and len(m) == 1 and m[0][0] == 'ld']
                    neg = [m for m, c in x[1][2] if c == (1 << 64) - 1 and len(m) == 1 and m[0][0] == 'ld']
                    if len(pos) == len(neg) == 1 and len(x[1][2]) == 2:
                        self.vec[pos[0][0]] = (neg[0][0], pconst(x[2]))
                if x[0] == 'ltc':
                    consts |= {x[2] - 1, x[2], x[2] + 1}
                elif x[0] == 'eq':
                    consts |= {x[2], x[2] + 1}
                elif x[0] == 'p':
                    for m, c in x[2]:
                        if len(m) <= 1:
                            consts |= {c, -c & ((1 << x[1]) - 1)}
        consts = sorted(consts)
        for i in range(n):
            # the values that were chosen last are those that decided against this valuation: choose them again
            e = Env(self, random.Random(seed*1000003 + i), consts)
            for _ in range(6):
                try:
                    if pred(e):
                        return e
                except (Skip, ZeroDivisionError, RecursionError):
                    pass
                if not e.back():
                    break
        return None

    def walk(self, t):
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if not isinstance(x, tuple) or not x or x in seen:
                continue
            seen.add(x)
            if isinstance(x[0], str):
                yield x
                if x[0] == 'b':
                    st += [self.B.atoms[v] for v in self.B.support(x[1])]
                elif x[0] in ('ex', 'EX'):
                    st += [self.B.atoms[v] for v in self.B.support(x[2])]
                    st.append(self.g.loops[x[1]].trip if x[0] == 'ex' else x[1])
                elif x[0] == 'ite':
                    for c, y in x[1]:
                        st += [self.B.atoms[v] for v in self.B.support(c)]
            st += [y for y in x if isinstance(y, tuple)]

    # ---------------------------------------------------------------- evaluation
    def evb(self, n, e):
        B = self.B
        while n > 1:
            v, lo, hi = B.nodes[n]
            n = hi if self.evatom(B.atoms[v], e) else lo
        return n == 1

    def evatom(self, a, e):
        k = a[0]
        if k == 'ltc':
            return self.ev(a[1], e) < a[2]
        if k == 'ult':
            return self.ev(a[1], e) < self.ev(a[2], e)
        if k == 'slt':
            return sg(self.ev(a[1], e), a[1][1]) < sg(self.ev(a[2], e), a[2][1])
        if k == 'eq':
            return self.ev(a[1], e) == a[2]
        if k in ('flt', 'fgt', 'feq'):
            x, y = self.ev(a[1], e), self.ev(a[2], e)
            return {'flt': x < y, 'fgt': x > y, 'feq': x == y}[k]
        if k in ('ex', 'EX'):
            if k == 'ex':
                l = self.g.loops[a[1]]
                if l.trip is None:
                    raise Skip()
                trip, q = self.form(l.trip), ('iv', a[1])
            else:
                trip, q = a[1], ('qv', e.depth)
                e.depth += 1
            n = self.ev(trip, e)
            if n > 12:
                raise Skip()
            old = e.env.get(q)
            r = False
            for i in range(n):
                e.env[q] = i
                if self.evb(a[2], e):
                    r = True
                    break
            if old is None:
                e.env.pop(q, None)
            else:
                e.env[q] = old
            if k == 'EX':
                e.depth -= 1
            return r
        if k == 'bool':
            return bool(self.ev(a[1], e))
        if k == 'bphi' and a[1] in self.recs:
            return bool(self.evrec(a, e))
        return bool(e.leafval(a, 1))

    def ev(self, t, e):
        k = t[0]
        if k == 'p':
            w = t[1]
            r = 0
            for m, c in t[2]:
                for a in m:
                    c *= self.evi(a, w, e)
                r += c
            return r & ((1 << w) - 1)
        if k == 'f':
            r = Fr(0)
            for m, c in t[1]:
                for a in m:
                    c *= self.evf(a, e)
                r += c
            return r
        if k == 'b':
            return int(self.evb(t[1], e))
        if k == 'ite':
            for c, x in t[1]:
                if self.evb(c, e):
                    return self.ev(x, e)
            raise Skip()
        return self.evi(t, 64, e)

    def evi(self, a, w, e):
        k = a[0]
        M = (1 << w) - 1
        if k == 'zext':
            return self.ev(a[2], e) & M
        if k == 'sext':
            return sg(self.ev(a[2], e), a[2][1]) & M
        if k == 'trunc':
            return (self.ev(a[2], e) if a[2][0] == 'p' else self.evi(a[2], a[1], e)) & M
        if k == 'div':
            return self.ev(a[1], e)//self.ev(a[2], e)
        if k == 'urem':
            return self.ev(a[1], e) % self.ev(a[2], e)
        if k == 'srem':
            x, y = sg(self.ev(a[1], e), w), sg(self.ev(a[2], e), w)
            return (abs(x) % abs(y))*(1 if x >= 0 else -1) & M
        if k in ('and', 'or', 'xor'):
            x, y = self.ev(a[1], e), self.ev(a[2], e)
            return x & y if k == 'and' else x | y if k == 'or' else x ^ y
        if k == 'op' and a[1] in EVOP:
            return EVOP[a[1]](self.ev(a[2], e), self.ev(a[3], e), w) & M
        if k == 'zextb':
            return int(self.evb(a[1], e))
        if k == 'kx':
            return self.evkx(self.g.loops[a[1]], e)
        if k == 'hphi' and a[1] in self.recs:
            return self.evrec(a, e) & M
        if k == 'iv' and a not in e.env:
            if a not in e.free:
                self.someiteration(self.g.loops[a[1]], e)
            return e.free[a] & M
        return e.leafval(a, w) & M

    def someiteration(self, l, e):
        """Choose an iteration of l that is reached."""
        g, B = self.g, self.B
        iv = ('iv', l.id)
        if l.trip is None or l.trip_at != 'header' or e.nofree or l.parent is not None and ('iv', l.parent.id) in e.env:
            raise Skip()
        if l.parent is not None and ('iv', l.parent.id) not in e.free:
            self.someiteration(l.parent, e)
        old, depth = dict(e.env), e.depth
        e.depth = 0
        try:
            n = self.ev(self.form(l.trip), e)
            if not 0 < n <= 12 or not self.evb(self.form(('b', g.region_reach(l.parent).get(g.nkey(l), 0)))[1], e):
                raise Skip()
            v = e.rnd.randrange(n)
            brk = 0
            for x in l.exits:
                if x != l.trip_edge:
                    brk = B.OR(brk, g.edge(x[0], x[1], l))
            brk = self.form(('b', brk))[1]
            for i in range(v):
                e.env[iv] = i
                if self.evb(brk, e):
                    raise Skip()
            e.free[iv] = v
        finally:
            e.env.clear()
            e.env.update(old)
            e.depth = depth

    def evrec(self, a, e):
        """Value of a recurrence after the given number of iterations."""
        u = self.recs[a[1]]
        if u is None:
            raise Skip()
        args = tuple(self.ev(x, e) for x in a[2])
        if args[0] > 12:
            raise Skip()
        key = ('rec', a[1], args)
        if key in e.recs:
            return e.recs[key]
        old, depth = dict(e.env), e.depth
        e.env.clear()
        e.depth = 0
        e.nofree += 1
        try:
            l = u[2]
            p, n = l.parent, 1
            while p is not None:
                e.env[('iv', p.id)] = args[n]
                p, n = p.parent, n + 1
            if args[0]:
                e.env[('iv', l.id)] = args[0] - 1
            v = self.ev(u[1 if args[0] else 0], e)
        finally:
            e.nofree -= 1
            e.env.clear()
            e.env.update(old)
            e.depth = depth
        e.recs[key] = v
        return v

    def evkx(self, l, e):
        """Iteration in which l was left."""
        g, B = self.g, self.B
        if l.trip is None or l.trip_at != 'header':
            raise Skip()
        old = dict(e.env)
        try:
            p = l.parent
            up = []
            while p is not None and ('iv', p.id) not in e.env:
                up.append(p)
                p = p.parent
            for p in reversed(up):
                v = self.evkx(p, e)
                e.env[('iv', p.id)] = v
            n = self.ev(self.form(l.trip), e)
            if n > 12:
                raise Skip()
            brk = 0
            for x in l.exits:
                if x != l.trip_edge:
                    brk = B.OR(brk, g.edge(x[0], x[1], l))
            brk = self.form(('b', brk))[1]
            for i in range(n):
                e.env[('iv', l.id)] = i
                if self.evb(brk, e):
                    return i
            return n
        finally:
            e.env.clear()
            e.env.update(old)

    def evf(self, a, e):
        k = a[0]
        if k == 'fabs':
            return abs(self.ev(a[1], e))
        if k == 'inv':
            return 1/self.ev(a[1], e)
        if k in ('uitofp', 'sitofp'):
            x = self.ev(a[1], e)
            return Fr(x if k[0] == 'u' else sg(x, a[1][1]))
        if k in ('fpext', 'fptrunc'):
            return self.ev(a[2], e)
        return Fr(e.leafval(a, 0))


def sg(x, w):
    return x - (1 << w) if x >> (w - 1) else x


EVOP = {'shl': lambda x, y, w: x << y if y < w else 0, 'lshr': lambda x, y, w: x >> y if y < w else 0,
        'add': lambda x, y, w: x + y, 'mul': lambda x, y, w: x*y, 'sub': lambda x, y, w: x - y}


class Env:
    """Lazily chosen values for the leaves."""

    def __init__(self, c, rnd, consts):
        self.c, self.rnd, self.consts = c, rnd, consts
        self.env = {}
        self.vals = {}
        self.recs = {}
        self.depth = 0
        self.free = {}
        self.nofree = 0
        self.small = rnd.random() < 0.5
        self.log = []

    def back(self):
        """Forget some of the values that were chosen last."""
        n = 1
        while self.rnd.random() < 0.4:
            n += 1
        for _ in range(min(n, len(self.vals))):
            self.vals.popitem()
        del self.log[len(self.vals):]
        self.env.clear()
        self.recs.clear()
        self.free.clear()
        self.depth = 0
        self.nofree = 0
        return bool(self.vals)

    def pick(self, w):
        r = self.rnd
        m = (1 << w) - 1 if w else 0
        if w == 1:
            return r.getrandbits(1)
        if w == 0:
            return Fr(r.choice([0, 1, -1, 2, 3, -3, 5]), r.choice([1, 1, 2]))
        q = r.random()
        if self.small or q < 0.6:
            return r.randrange(5)
        if q < 0.85:
            return r.choice(self.consts) & m
        if q < 0.95:
            return m - r.randrange(3)
        return r.getrandbits(w)

    def leafval(self, a, w):
        if a in self.env:
            return self.env[a]
        c = self.c
        k = a[0]
        if k == 'ld':
            addr = c.ev(a[2], self)
            key = ('mem', addr, a[1])
            args = (addr,)
        elif k == 'call':
            args = tuple(c.ev(x, self) if x[0] in ('p', 'f', 'b', 'ite') else x for x in a[2])
            key = ('call', a[1], args) + tuple(a[3:])
        elif k == 'sym':
            key = tuple(c.ev(x, self) if isinstance(x, tuple) and x and x[0] in ('p', 'f', 'b', 'ite') else x for x in a)
            args = ()
        elif k in ('ev', 'callv'):
            key = a
            args = ()
        else:
            key, args = a, ()
        if key in self.vals:
            return self.vals[key]
        v = None
        if c.leaf:
            v = c.leaf(a, args, self, w)
        if v is None and a in c.vec:
            b, d = c.vec[a]
            m = self.rnd.choice((127, 128, 255, 256, 257, 65535, 65536, 70000)) if self.rnd.random() < 0.06 else self.rnd.randrange(4)
            v = self.leafval(b, 64) + d*m & (1 << 64) - 1
        if v is None:
            ptr = k in ('alloca', 'glob', 'fn') or k == 'arg' and c.g.fn.args[a[1]]['ty'] == 'ptr' or any(
                b == a for b, _ in c.vec.values())
            if ptr and (k != 'arg' or self.rnd.random() < 0.85):
                v = 0x100000*(len(self.vals) + 1)
            elif ptr:
                v = 0
            else:
                v = self.pick(w)
        if k == 'ld':
            n = c.g.tysz(a[1])
            for o in self.vals:
                # the same bytes read as different types: no consistent choice is attempted
                if o[0] == 'mem' and o[1] < args[0] + n and args[0] < o[1] + c.g.tysz(o[2]):
                    raise Skip()
        self.vals[key] = v
        self.log.append((a, v))
        return v

    def describe(self):
        return 'differs e.g. for ' + ', '.join('%s=%s' % (show(a, self.c.B), v) for a, v in self.log[:8])
