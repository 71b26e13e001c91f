"""Thin object layer over irdump's JSON: functions, CFG, dominators."""
import os
from .build import REPO, AnalysisError


class Inst:
    __slots__ = ('d', 'id', 'op', 'bb', 'idx', 'fn')

    def __init__(self, d, bb, idx, fn):
        self.d = d; self.id = d['id']; self.op = d['op']; self.bb = bb; self.idx = idx; self.fn = fn

    def __getitem__(self, k):
        return self.d[k]

    def get(self, k, dflt=None):
        return self.d.get(k, dflt)

    @property
    def ops(self):
        return self.d.get('ops', [])

    def loc(self, repo_only=True):
        """Innermost source position inside /repo."""
        for f, l, fn, dr in self.d.get('loc', []):
            p = f if f.startswith('/') else os.path.join(dr, f)
            p = os.path.normpath(p)
            if p.startswith(REPO + '/'):
                return '%s:%d' % (p[len(REPO) + 1:], l)
        for f, l, fn, dr in self.d.get('loc', []):
            return '%s:%d' % (f, l)
        return '?'

    def where(self):
        for f, l, fn, dr in self.d.get('loc', []):
            p = os.path.normpath(f if f.startswith('/') else os.path.join(dr, f))
            if p.startswith(REPO + '/'):
                return '%s:%d (%s)' % (p[len(REPO) + 1:], l, fn.split('(')[0])
        return self.loc()

    def __repr__(self):
        return '<%%%d %s %s>' % (self.id, self.op, self.loc())


class Func:
    def __init__(self, d):
        self.d = d
        self.name = d['name']
        self.dem = d['dem']
        self.args = d['args']
        self.blocks = [b['id'] for b in d['blocks']]
        self.insts = {}
        self.bb = {}
        for b in d['blocks']:
            l = []
            for i, x in enumerate(b['insts']):
                ins = Inst(x, b['id'], i, self)
                self.insts[ins.id] = ins
                l.append(ins)
            self.bb[b['id']] = l
        self.entry = self.blocks[0]
        self.succ = {b: self._succ(b) for b in self.blocks}
        self.pred = {b: [] for b in self.blocks}
        for b in self.blocks:
            for s in dict.fromkeys(self.succ[b]):
                self.pred[s].append(b)
        self._idom = None
        self._ipdom = None
        self._uses = None

    def term(self, b):
        return self.bb[b][-1]

    def _succ(self, b):
        t = self.bb[b][-1]
        return [o[1] for o in t.d.get('ops', []) if o[0] == 'bb'] if t.op in ('br', 'switch', 'indirectbr') else []

    def all(self):
        for b in self.blocks:
            for i in self.bb[b]:
                yield i

    def calls(self):
        for i in self.all():
            if i.op in ('call', 'invoke'):
                yield i

    def rpo(self, succ=None, entry=None):
        succ = succ or self.succ
        seen, out = set(), []
        st = [(entry or self.entry, 0)]
        seen.add(entry or self.entry)
        while st:
            b, k = st.pop()
            if k < len(succ[b]):
                st.append((b, k + 1))
                s = succ[b][k]
                if s not in seen:
                    seen.add(s)
                    st.append((s, 0))
            else:
                out.append(b)
        return out[::-1]

    @staticmethod
    def _dom(order, pred, entry):
        num = {b: i for i, b in enumerate(order)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == entry:
                    continue
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        return idom

    @property
    def idom(self):
        if self._idom is None:
            self._idom = self._dom(self.rpo(), self.pred, self.entry)
        return self._idom

    def dominates(self, a, b):
        """Block a dominates block b (reflexive)."""
        idom = self.idom
        if b not in idom:
            return True
        while True:
            if a == b:
                return True
            n = idom[b]
            if n == b:
                return False
            b = n

    def idominates(self, x, y):
        """Instruction x dominates instruction y (strictly, or same block earlier)."""
        if x.bb == y.bb:
            return x.idx < y.idx
        return self.dominates(x.bb, y.bb)

    def edge_dominates(self, edge, b):
        """CFG edge (u,v) dominates block b."""
        u, v = edge
        if self.succ[u].count(v) > 1:
            return False
        if not self.dominates(v, b):
            return False
        for p in self.pred[v]:
            if p != u and not self.dominates(v, p):
                return False
        return True

    @property
    def ipdom(self):
        if self._ipdom is None:
            exits = [b for b in self.blocks if not self.succ[b]]
            X = -1
            rsucc = {b: list(self.pred[b]) for b in self.blocks}
            rsucc[X] = exits
            rpred = {b: list(self.succ[b]) + ([X] if b in exits else []) for b in self.blocks}
            rpred[X] = []
            order = self.rpo(rsucc, X)
            self._ipdom = self._dom(order, rpred, X)
        return self._ipdom

    def postdominates(self, a, b):
        ip = self.ipdom
        if b not in ip:
            return False
        while True:
            if a == b:
                return True
            n = ip[b]
            if n == b:
                return False
            b = n

    def reach(self, start, avoid=()):
        """Blocks reachable from start (inclusive) without entering `avoid` blocks."""
        seen, st = set(), [start]
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            st += self.succ[b]
        return seen

    @property
    def uses(self):
        if self._uses is None:
            u = {}

            def add(o, i):
                if o[0] == 'v':
                    u.setdefault(o[1], []).append(i)
            for i in self.all():
                for o in i.d.get('ops', []):
                    add(o, i)
                for o in i.d.get('args', []):
                    add(o, i)
                if 'base' in i.d:
                    add(i.d['base'], i)
                for o, _ in i.d.get('idx', []):
                    add(o, i)
                for o, _ in i.d.get('in', []):
                    add(o, i)
                if 'target' in i.d:
                    add(i.d['target'], i)
            self._uses = u
        return self._uses


class Module:
    def __init__(self, d):
        self.d = d
        self.funcs = {f['name']: Func(f) for f in d['functions']}
        self.globals = {g['name']: g for g in d['globals']}
        self.structs = d.get('structs', {})

    def find(self, dem_prefix):
        return [f for f in self.funcs.values() if f.dem.startswith(dem_prefix)]

    def enum(self, q):
        s = self.structs.get(q)
        if not s or not s['members'] or 'value' not in s['members'][0]:
            raise AnalysisError('enum %s not found' % q)
        return {m['name']: m['value'] for m in s['members']}

    def fields(self, q):
        s = self.structs.get(q)
        if not s:
            raise AnalysisError('struct %s not found' % q)
        return {m['name']: m for m in s['members']}

    def string(self, op):
        """C string a global operand points at, or None."""
        if op[0] != 'g':
            return None
        g = self.globals.get(op[1])
        if not g or 'hex' not in g:
            return None
        b = bytes.fromhex(g['hex'])[op[2]:]
        z = b.find(b'\0')
        return b[:z].decode('latin1') if z >= 0 else None
