"""Which memory a function may change: flow of pointers into an object through the program, without inlining.

A value is D when it points into the object (or into what it refers to), H when it points to other memory that holds such
pointers.  Each is precise when only offsets, loads and calls of analysed functions lie between it and the object."""
import re

CASTS = ('bitcast', 'addrspacecast', 'phi', 'select', 'freeze', 'getelementptr', 'extractvalue', 'insertvalue')
PURE = {'memcmp', 'bcmp', 'strcmp', 'strncmp', 'strlen', 'strcasecmp', 'strncasecmp', 'tolower', 'toupper', 'memchr', 'strchr',
        'strstr', 'strrchr', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort'}
SKIP = re.compile(r'^(llvm\.(dbg|lifetime|assume|invariant|experimental|prefetch|is\.constant|objectsize|expect))')
# accessors of extern templates that do not change what they are called on
ACCESS = re.compile(r'::(begin|end|cbegin|cend|data|c_str|size|length|empty|operator\[\]|front|back|at|_M_data|_M_local_data|'
                    r'get_allocator|_M_get_allocator|find|compare)\(')


def params(dem):
    """(parameter types, const method) of a demangled signature, or None."""
    d = dem
    const = bool(re.search(r'\) const( ?&)?$', d))
    e = d.rfind(')')
    if e < 0:
        return None
    n, i = 0, e
    while i >= 0:
        if d[i] == ')':
            n += 1
        elif d[i] == '(':
            n -= 1
            if n == 0:
                break
        i -= 1
    body = d[i + 1:e]
    out, cur, n = [], '', 0
    for ch in body:
        if ch in '(<[{':
            n += 1
        elif ch in ')>]}':
            n -= 1
        if ch == ',' and n == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out, const, d[:i]


def readonly_type(t):
    return bool(re.search(r'const ?[&*]$', t)) or bool(re.search(r'const \(&\)', t))


class Result:
    def __init__(self):
        self.writes = []       # (inst, precise, chain)
        self.unknown = []      # (inst, what)
        self.returns = None    # None, or whether precise
        self.into = {}         # argument -> precise: D was stored in its memory


class Mut:
    def __init__(self, m):
        self.m = m
        self.memo = {}

    def external(self, i, k):
        """Effect of a function without a body on argument k: 'read', 'write' or None."""
        d = i.get('dem', '')
        n = i.get('callee', '')
        if n in PURE:
            return 'read'
        if n in ('memcpy', 'memmove', 'memset', 'free', 'realloc'):
            return 'write' if k == 0 else 'read'
        if d.startswith('operator delete'):
            return 'write' if k == 0 else 'read'
        if d.startswith('std::function<') and d.endswith(' const'):
            return 'read'
        p = params(d)
        if p is None:
            return None
        ps, const, name = p
        nargs = len(i['args'])
        off = nargs - len(ps)
        if off < 0 or off > 2:
            return None
        if k < off:
            if any(kind == 'sret' and a == k for kind, a in i.get('byval', [])):
                return 'write'
            return 'read' if const or ACCESS.search(d) else 'write' if '::' in name else None
        t = ps[k - off]
        if readonly_type(t):
            return 'read'
        if t.endswith('&') or t.endswith('*'):
            return 'write'
        return 'read'

    def call(self, i, k, level, st):
        """Effect of call i on argument k: a Result."""
        n = i.get('callee')
        if n is None:
            r = Result()
            r.unknown.append((i, 'call through a pointer'))
            return r
        d = i.get('dem', '')
        if d.startswith('std::function<') and d.endswith(' const'):
            return Result()
        f = self.m.funcs.get(n)
        if f is not None and k < len(f.args):
            return self.func(f, k, level, st)
        r = Result()
        it = i.get('intr', '')
        if it:
            if SKIP.match(it):
                return r
            if it.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                if k == 0 and level == 'D':
                    r.writes.append((i, True, ()))
                if k == 1:
                    r.into[0] = False
                return r
            return r
        e = self.external(i, k)
        if level == 'H':
            return r if e else r
        if e == 'write':
            r.writes.append((i, True, ()))
        elif e is None:
            r.unknown.append((i, 'calls ' + (d or n)))
        if e == 'read' and i['ty'] == 'ptr':
            r.returns = True
        return r

    def func(self, f, k, level, st=()):
        key = (f.name, k, level)
        if key in self.memo:
            return self.memo[key]
        if key in st or len(st) > 60:
            return Result()
        r = self.flow(f, {('arg', k): (level, True)}, st + (key,))
        if not any(x in st for x in [key]):
            self.memo[key] = r
        return r

    def flow(self, f, seeds, st=(), seedcalls=(), glob=None, skip=()):
        """Follow the seeds through function f.  glob: name of a global; skip: instructions to leave out."""
        res = Result()
        val = {}       # instruction id -> (level, precise)
        allocas = {}   # alloca id -> precise
        argno = {a['id']: k for k, a in enumerate(f.args)}

        def root(o):
            """Base of a pointer operand: ('alloca', id) / ('arg', k) / other."""
            seen = set()
            while o[0] == 'v' and o[1] not in seen:
                seen.add(o[1])
                if o[1] in argno:
                    return ('arg', argno[o[1]])
                i = f.insts.get(o[1])
                if i is None:
                    return ('v', o[1])
                if i.op == 'alloca':
                    return ('alloca', i.id)
                if i.op == 'getelementptr':
                    o = i['base']
                elif i.op in ('bitcast', 'addrspacecast', 'freeze'):
                    o = i.ops[0]
                else:
                    return ('v', o[1])
            return tuple(o[:2])

        def get(o):
            if glob is not None and o[0] == 'g' and o[1] == glob:
                return ('D', True)
            if o[0] == 'v' and o[1] in argno:
                return seeds.get(('arg', argno[o[1]]))
            if o[0] == 'v':
                x = val.get(o[1])
                if x is None:
                    r = root(o)
                    if r[0] == 'alloca' and r[1] in allocas:
                        return ('H', allocas[r[1]])
                return x
            return None

        def put(i, x):
            if x is None:
                return False
            o = val.get(i)
            if o is None or o[0] == 'H' and x[0] == 'D' or o[0] == x[0] and o[1] and not x[1]:
                val[i] = x
                return True
            return False

        def hold(o, p):
            """Memory at o holds D pointers."""
            r = root(o)
            if r[0] == 'alloca':
                if r[1] not in allocas:
                    allocas[r[1]] = p
                    return True
            elif r[0] == 'arg':
                if r[1] not in res.into:
                    res.into[r[1]] = p
                    return True
            return False
        ch = True
        n = 0
        while ch and n < 50:
            ch = False
            n += 1
            for i in f.all():
                if i in skip:
                    continue
                if i.op == 'getelementptr':
                    ch |= put(i.id, get(i['base']))
                elif i.op == 'phi':
                    for o, _ in i['in']:
                        ch |= put(i.id, get(o))
                elif i.op == 'select':
                    for o in i.ops[1:]:
                        ch |= put(i.id, get(o))
                elif i.op in CASTS:
                    for o in i.ops:
                        ch |= put(i.id, get(o))
                elif i.op == 'load':
                    x = get(i.ops[0])
                    if x and (i['ty'] == 'ptr' or i['ty'].startswith('{')):
                        ch |= put(i.id, ('D', x[1] and x[0] == 'D'))
                elif i.op == 'store':
                    v, a = get(i.ops[0]), get(i.ops[1])
                    if v and v[0] == 'D' and not (a and a[0] == 'D'):
                        ch |= hold(i.ops[1], False)
                elif i.op in ('call', 'invoke'):
                    if i.id in seedcalls:
                        ch |= put(i.id, ('D', True))
                    for k, o in enumerate(i['args']):
                        x = get(o)
                        if not x:
                            continue
                        r = self.call(i, k, x[0], st)
                        if r.returns is not None:
                            ch |= put(i.id, ('D', x[1] and r.returns) if i['ty'] != 'void' else None)
                        for j, p in r.into.items():
                            if j < len(i['args']):
                                y = get(i['args'][j])
                                if not (y and y[0] == 'D'):
                                    ch |= hold(i['args'][j], False)
        seen = set()

        def add(l, x):
            key = (x[0].id, x[1:])
            if key not in seen:
                seen.add(key)
                l.append(x)
        for i in f.all():
            if i in skip:
                continue
            if i.op == 'store':
                a = get(i.ops[1])
                if a and a[0] == 'D':
                    add(res.writes, (i, a[1], ()))
                v = get(i.ops[0])
                if v and v[0] == 'D' and not a and root(i.ops[1])[0] not in ('alloca', 'arg'):
                    add(res.unknown, (i, 'address is kept'))
            elif i.op in ('atomicrmw', 'cmpxchg'):
                a = get(i.ops[0])
                if a and a[0] == 'D':
                    add(res.writes, (i, a[1], ()))
            elif i.op in ('call', 'invoke'):
                for k, o in enumerate(i['args']):
                    x = get(o)
                    if not x:
                        continue
                    r = self.call(i, k, x[0], st)
                    for w, p, chain in r.writes:
                        add(res.writes, (i, p and x[1], ((w,) + chain)[:6]))
                    for w, what in r.unknown:
                        add(res.unknown, (i, what))
            elif i.op == 'ret' and i.ops:
                x = get(i.ops[0])
                if x and x[0] == 'D':
                    res.returns = x[1] if res.returns is None else res.returns and x[1]
        return res
