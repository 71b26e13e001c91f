"""Exact bit-level values of summary terms: each bit of a value as a BDD over the bits of a few bytes.

Terms (terms.py) built from additions, shifts, masks, comparisons, conditionals and constant tables are translated bit by bit.
Anything else raises Undecided."""
from .terms import BDD, P, K, patom, pconst, padd, pmul, root_off
from .absbits import Undecided


class Bits:
    def __init__(self, g, leaf=None, table=None, env=None, Z=None, rewrite=None):
        """leaf(atom, width): list of bits (least significant first) or None.  table(address term): (bytes, index term) for
        a lookup in a constant table.  env: values of atoms (loop counters).  rewrite: applied to polynomials first."""
        self.g, self.B = g, g.B
        self.leaf, self.table, self.env = leaf, table, env or {}
        self.Z = Z or BDD()
        self.rewrite = rewrite
        self.vm, self.nm = {}, {}

    def const(self, w, c):
        return [(c >> i) & 1 for i in range(w)]

    # ------------------------------------------------------------ arithmetic
    def add(self, a, b, carry=0):
        Z, out = self.Z, []
        for x, y in zip(a, b):
            s = Z.XOR(Z.XOR(x, y), carry)
            carry = Z.OR(Z.AND(x, y), Z.AND(x, carry), Z.AND(y, carry))
            out.append(s)
        return out

    def neg(self, a):
        return self.add([self.Z.NOT(x) for x in a], self.const(len(a), 0), 1)

    def mulc(self, a, c):
        w = len(a)
        c &= (1 << w) - 1
        if c >> (w - 1) and bin(c).count('1') > w//2:
            return self.neg(self.mulc(a, (1 << w) - c))
        r = self.const(w, 0)
        for i in range(w):
            if c >> i & 1:
                r = self.add(r, [0]*i + a[:w - i])
        return r

    def ult(self, a, b):
        Z, r = self.Z, 0
        for x, y in zip(a, b):
            r = Z.ite(Z.XOR(x, y), y, r)
        return r

    def slt(self, a, b):
        return self.ult(a[:-1] + [b[-1]], b[:-1] + [a[-1]])

    def eq(self, a, b):
        Z, r = self.Z, 1
        for x, y in zip(a, b):
            r = Z.AND(r, Z.NOT(Z.XOR(x, y)))
        return r

    def mux(self, alts):
        """[(bit, vector)] covering."""
        Z = self.Z
        r = None
        for c, v in alts:
            r = v if r is None else [Z.ite(c, x, y) for x, y in zip(v, r)]
        return r

    def shift(self, op, a, b):
        Z, w = self.Z, len(a)
        r = a
        fill = a[-1] if op == 'ashr' else 0
        for i, s in enumerate(b):
            if s == 0:
                continue
            n = 1 << i
            if n >= w:
                m = [fill]*w
            elif op == 'shl':
                m = [0]*n + r[:w - n]
            else:
                m = r[n:] + [fill]*n
            r = m if s == 1 else [Z.ite(s, x, y) for x, y in zip(m, r)]
            if n >= w and s == 1:
                break
        return r

    # ------------------------------------------------------------ terms
    def vec(self, t):
        r = self.vm.get(t)
        if r is None:
            r = self.vm[t] = self._vec(t)
        return r

    def _vec(self, t):
        if t[0] == 'p':
            if self.rewrite:
                t = self.rewrite(t)
            w = t[1]
            r = None
            for k, c in t[2]:
                if k == ():
                    v = self.const(w, c)
                elif len(k) == 1:
                    v = self.mulc(self.atom(k[0], w), c)
                else:
                    cs = [pconst(K(w, self.env[a])) if a in self.env else None for a in k]
                    rest = [a for a, x in zip(k, cs) if x is None]
                    if len(rest) > 1:
                        raise Undecided('product of values')
                    m = c
                    for x in cs:
                        if x is not None:
                            m *= x
                    v = self.mulc(self.atom(rest[0], w), m) if rest else self.const(w, m)
                r = v if r is None else self.add(r, v)
            return r if r is not None else self.const(w, 0)
        if t[0] == 'ite':
            return self.mux([(self.node(c), self.vec(x)) for c, x in t[1]])
        if t[0] == 'b':
            return [self.node(t[1])]
        raise Undecided('value is not understood: %s' % (t[0],))

    def lookup(self, data, idx, n=None):
        """Byte idx of a constant table."""
        bits = max(1, (len(data) - 1).bit_length())
        lo = idx[:bits]
        out = []
        for b in range(8):
            def go(i, base):
                if i < 0:
                    return data[base] >> b & 1 if base < len(data) else 0
                return self.Z.ite(lo[i], go(i - 1, base | 1 << i), go(i - 1, base))
            out.append(go(bits - 1, 0))
        return out

    def atom(self, a, w):
        Z = self.Z
        if a in self.env:
            return self.const(w, self.env[a])
        if self.leaf:
            r = self.leaf(a, w)
            if r is not None:
                return r
        k = a[0]
        if k in ('zext', 'sext') and len(a) == 3:
            x = self.vec(a[2])
            return (x + [0 if k == 'zext' else x[-1]]*(w - len(x)))[:w]
        if k == 'trunc' and len(a) == 3:
            x = self.atom(a[2], a[1]) if a[2][0] not in ('p', 'ite', 'b') else self.vec(a[2])
            return x[:w]
        if k == 'trunc' and len(a) == 2:
            return self.vec(a[1])[:w]
        if k == 'call' and a[1].startswith(('llvm.fshl.', 'llvm.fshr.')) and pconst(a[2][2]) is not None:
            x, y = self.vec(a[2][0]), self.vec(a[2][1])
            n = pconst(a[2][2]) % len(x)
            z = y + x
            n = len(x) - n if a[1].startswith('llvm.fshl.') else n
            return z[n:n + len(x)]
        if k in ('div', 'urem') and pconst(a[2]):
            n = pconst(a[2])
            if n & (n - 1) == 0:
                x, s = self.vec(a[1]), n.bit_length() - 1
                return x[s:] + [0]*s if k == 'div' else x[:s] + [0]*(len(x) - s)
        if k in ('and', 'or', 'xor') and len(a) == 3:
            f = {'and': Z.AND, 'or': Z.OR, 'xor': Z.XOR}[k]
            return [f(x, y) for x, y in zip(self.vec(a[1]), self.vec(a[2]))]
        if k == 'op' and len(a) == 4:
            op, x, y = a[1], self.vec(a[2]), self.vec(a[3])
            if op in ('and', 'or', 'xor'):
                f = {'and': Z.AND, 'or': Z.OR, 'xor': Z.XOR}[op]
                return [f(p, q) for p, q in zip(x, y)]
            if op == 'add':
                return self.add(x, y)
            if op == 'sub':
                return self.add(x, [Z.NOT(q) for q in y], 1)
            if op in ('shl', 'lshr', 'ashr'):
                return self.shift(op, x, y)
        if k in ('lshr', 'ashr') and len(a) == 3:
            return self.shift(k, self.vec(a[1]), self.vec(a[2]))
        if k == 'div' and len(a) == 3:
            # a logical shift by a variable amount is not turned into a division by the summaries
            raise Undecided('division')
        if k == 'ld' and a[1] in ('i8',) and self.table:
            x = self.table(a[2])
            if x is not None:
                data, idx = x
                return self.lookup(data, self.vec(idx))
        raise Undecided("value is not understood: %s" % str(a)[:300])

    def bool(self, a):
        Z = self.Z
        if self.leaf:
            r = self.leaf(a, 1)
            if r is not None:
                return r[0]
        k = a[0]
        if k == 'ltc':
            x = self.vec(a[1])
            return self.ult(x, self.const(len(x), a[2])) if a[2] < 1 << len(x) else 1
        if k == 'ult':
            return self.ult(self.vec(a[1]), self.vec(a[2]))
        if k == 'slt':
            return self.slt(self.vec(a[1]), self.vec(a[2]))
        if k == 'eq':
            x = self.vec(a[1])
            return self.eq(x, self.const(len(x), a[2]) if isinstance(a[2], int) else self.vec(a[2]))
        if k == 'icmp' and len(a) == 4:
            x, y = self.vec(a[2]), self.vec(a[3])
            p = a[1]
            r = {'eq': lambda: self.eq(x, y), 'ne': lambda: Z.NOT(self.eq(x, y)), 'ult': lambda: self.ult(x, y),
                 'ugt': lambda: self.ult(y, x), 'uge': lambda: Z.NOT(self.ult(x, y)), 'ule': lambda: Z.NOT(self.ult(y, x)),
                 'slt': lambda: self.slt(x, y), 'sgt': lambda: self.slt(y, x), 'sge': lambda: Z.NOT(self.slt(x, y)),
                 'sle': lambda: Z.NOT(self.slt(y, x))}[p]
            return r()
        raise Undecided('condition is not understood: %s' % (k,))

    def node(self, n):
        if n <= 1:
            return n
        r = self.nm.get(n)
        if r is None:
            v, lo, hi = self.B.nodes[n]
            r = self.nm[n] = self.Z.ite(self.bool(self.B.atoms[v]), self.node(hi), self.node(lo))
        return r
