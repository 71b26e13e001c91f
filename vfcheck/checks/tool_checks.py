"""T01 to T12: the command line tool."""
import os, re
from ..build import AnalysisError, REPO
from ..ir import Module
from ..effects import Mut
from ..absbits import Undecided
from ..bits import Bits
from ..lib import *
from ..terms import *
from .convert_checks import guard
from . import state_checks as sc

ALPHABET = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def tool_srcs(ws):
    return ws.tool_sources()


def constant_table(ws, m, name, memo={}):
    """Contents of a variable that nothing changes, or None."""
    g = m.globals.get(name)
    if not g or 'hex' not in g:
        return None
    if not g['const']:
        if (ws.dir, name) not in memo:
            raw = Module(ws.ir(tool_srcs(ws), **sc.RAW))
            mut = Mut(raw)
            ok = True
            for f in raw.funcs.values():
                if any(sc.uses_global(i, name) for i in f.all()):
                    res = mut.flow(f, {}, seedcalls=set(), glob=name, skip=())
                    ok = ok and not res.writes and not res.unknown and res.returns is None
            memo[(ws.dir, name)] = ok and (name not in raw.globals or raw.globals[name].get('internal', True))
        if not memo[(ws.dir, name)]:
            return None
    return bytes.fromhex(g['hex'])


def tables(ws, m):
    """Lookup in a constant table for Bits."""
    def f(addr):
        if addr[0] != 'p':
            return None
        gl = [(k, c) for k, c in addr[2] if len(k) == 1 and k[0][0] == 'glob']
        if len(gl) != 1 or gl[0][1] != 1:
            return None
        b = constant_table(ws, m, gl[0][0][0][1])
        if b is None:
            return None
        idx = padd(addr, A(64, gl[0][0][0]), -1)
        return b, idx
    return f


class Bytes:
    """Variables for the bits of bytes at a base address."""

    def __init__(self, Z, n):
        self.Z = Z
        self.v = [None]*n
        for k in range(n):
            hi = [Z.var(('bit', k, b)) for b in range(7, -1, -1)]
            self.v[k] = hi[::-1]

    def leaf(self, base):
        def f(a, w):
            if a[0] == 'ld' and a[1] == 'i8' and a[2][0] == 'p':
                d = padd(a[2], base, -1)
                c = sconst(d) if d[0] == 'p' else None
                if c is not None and 0 <= c < len(self.v):
                    return self.v[c]
            return None
        return f


def status(r, rule, inst, ok, detail, where, Z=None):
    r.put('ok' if ok else 'violation', rule, inst, '' if ok else detail, where)


def settle(r, rule, inst, Z, d, detail, where):
    """ok if d is false; a violation if it holds for some input whatever the values are that are not understood."""
    if d == 0:
        return r.put('ok', rule, inst, '', where)
    unk = [v for v in Z.support(d) if Z.atoms[v][0] == '?']
    for v in unk:
        d = Z.AND(Z.restrict(d, v, 0), Z.restrict(d, v, 1))
    if d == 0:
        return r.und(rule, inst, 'depends on a value that is not understood', where)
    r.put('violation', rule, inst, detail(d), where)


def loop_loc(g, L):
    """A source location in the loop."""
    for b in g.fn.rpo():
        if b in L.blocks:
            for i in g.fn.bb[b]:
                if ':0 ' not in i.where() and ':' in i.where():
                    return i.where()
    return g.fn.bb[L.header][0].where()


def example(Z, f, n):
    """Bytes of an assignment satisfying f."""
    c = dict(Z.cube(f) or [])
    return ' '.join('%02x' % sum(1 << b for b in range(8) if c.get(('bit', k, b))) for k in range(n))


PUSH = re.compile(r'.*std::(?:__cxx11::)?(basic_string|vector)<.*>::(push_back|emplace_back(?:<[^()]*>)?|operator\+=|append|clear|'
                  r'resize|insert|assign|operator=|pop_back|erase|swap|reserve|basic_string|vector|~basic_string|~vector|shrink_to_fit|'
                  r'replace|emplace(?:<[^()]*>)?)\(')


def pushes(F, obj):
    """[(instruction, value term)] of characters appended to obj, in program order, and other changes."""
    g = F.g
    out, other = [], []
    for i, c in F.calls():
        d = i.get('dem', '')
        mm = PUSH.match(d)
        if not mm or not i['args'] or d.endswith(' const'):
            continue
        a = g.args(i)
        if a[0] != obj:
            continue
        k = mm.group(2).split('<')[0]
        l = g.loop_of[i.bb]
        if k in ('push_back', 'emplace_back') and len(a) == 2:
            v = a[1]
            w = v[1] if v[0] == 'p' else None
            if w == 64 or v[0] == 'p' and patom(v) is not None and patom(v)[0] == 'alloca':
                v = g.value_before(a[1], 'i8', i, l)
            out.append((i, v))
        elif k == 'operator+=' and d.rstrip().endswith('(char)'):
            out.append((i, a[1]))
        elif k == 'append' and '(unsigned long, char)' in d and pconst(a[1]) is not None:
            out += [(i, a[2])]*pconst(a[1])
        elif k in ('operator+=', 'append') and d.rstrip().endswith('(char const*)') and string_of(F.m, a[1]) is not None:
            out += [(i, K(8, ord(x))) for x in string_of(F.m, a[1])]
        elif k in ('reserve', 'basic_string', 'vector', '~basic_string', '~vector', 'shrink_to_fit'):
            if k in ('basic_string', 'vector') and len(a) > 1 and not g.fn.dominates(i.bb, i.bb):
                other.append(i)
        else:
            other.append(i)
    return out, other


# ------------------------------------------------------------------ T01
ENCODE = 'base64::encode[abi:cxx11](void const*, unsigned long)'
DECODE = 'base64::decode(std::vector<unsigned char, std::allocator<unsigned char>>&, char const*)'


def c_t01(ws, r):
    m = module(ws, [('enc', ENCODE, {})], srcs=tool_srcs(ws), unrollsize=400, unrollcalls=True)
    F = Fn(m, 'enc')
    g, B = F.g, F.B
    res, data, size = F.arg(0), F.arg(1), F.arg(2)
    ps, other = pushes(F, res)
    for i in other:
        raise AnalysisError('the result is changed by %s' % i['dem'][:80])
    loops = {g.loop_of[i.bb] for i, _ in ps} - {None}
    if len(loops) != 1:
        raise AnalysisError('groups of three bytes are not encoded by one loop')
    L = loops.pop()
    iv_atom = ('iv', L.id)
    iv = A(64, iv_atom)
    tab = tables(ws, m)

    def bt1_zero(a):
        return [0] if a == ('ltc', data, 1) else None
    nonnull = B.NOT(g.cmp('eq', data, K(64, 0)))
    # groups of three bytes
    def window(base, n, rewrite=None, more=None):
        Z = BDD()
        by = Bytes(Z, n)
        lf = by.leaf(base)
        bt = Bits(g, leaf=lambda a, w: lf(a, w) or (more(Z, a, w) if more else None), table=tab, Z=Z, rewrite=rewrite)
        return Z, by, bt

    def six(by, k):
        """Bits of the k-th group of six bits, most significant bit of the first byte first."""
        bits = [b for x in by for b in reversed(x)]
        return list(reversed(bits[6*k:6*k + 6]))

    def std(bt, idx):
        return bt.lookup(ALPHABET, idx)
    base = padd(data, pmul(iv, K(64, 3)))
    Z, by, bt = window(base, 3)
    inl = [(i, v) for i, v in ps if g.loop_of[i.bb] is L]
    inl.sort(key=lambda x: (g.fn.rpo().index(x[0].bb), x[0].idx))
    for i, v in inl:
        r.count('characters')
    if len(inl) != 4:
        (r.bad if all(g.cond(i.bb) == 1 for i, _ in inl) else r.und)(
            'group', 'characters of a group', '%d characters are written for 3 bytes' % len(inl), inl[0][0].where())
    else:
        for k, (i, v) in enumerate(inl):
            x = bt.vec(v)
            d = Z.NOT(bt.eq(x, std(bt, six(by.v, k))))
            settle(r, 'group', 'character %d' % (k + 1), Z, d,
                   lambda d: 'is not the standard character for bytes ' + example(Z, d, 3), i.where())
            # written for every group that is there
            put2(r, F, 'group', 'character %d for every group' % (k + 1), g.cond(i.bb), header_cond(g, L, i.bb), 1, i.where())
    # the loop runs while three bytes are left
    stay = 1
    for u, v in L.exits:
        stay = B.AND(stay, B.NOT(g.edge_local(u, v) if g.loop_of[u] is L else B.var(('irr', u, v))))
    Z1 = BDD()
    vs = [(Z1.var(('size', b)), Z1.var(('iv', b))) for b in range(61)]
    sz, it = [x for x, _ in vs] + [0]*3, [x for _, x in vs] + [0]*3
    bt1 = Bits(g, leaf=lambda a, w: {iv_atom: it, ('arg', 2): sz}.get(a) if w == 64 else bt1_zero(a), table=tab, Z=Z1)
    at = loop_loc(g, L)
    it3 = bt1.mulc(it, 3)
    inside = Z1.NOT(bt1.ult(sz, it3))
    three = Z1.NOT(bt1.ult(sz, bt1.add(it3, bt1.const(64, 3))))
    d = Z1.AND(inside, Z1.XOR(bt1.node(B.constrain(stay, B.AND(nonnull, B.NOT(g.cmp('eq', size, K(64, 0)))))), three),
               Z1.NOT(bt1.eq(sz, bt1.const(64, 0))))
    c = dict(Z1.cube(d) or [])
    status(r, 'extent', 'groups while three bytes are left', d == 0, 'wrong for %d bytes in group %d' % tuple(
        sum(1 << b for b in range(61) if c.get((k, b))) for k in ('size', 'iv')), at)
    # what is left
    kx = A(64, ('kx', L.id))
    rem = A(64, ('sym', 'rem'))

    def rewrite(t):
        if t[0] != 'p' or t[1] != 64:
            return t
        d = K(64, 0)
        for k, c in t[2]:
            x = K(64, c)
            for a in k:
                x = pmul(x, padd(pmul(kx, K(64, 3)), rem) if a == ('arg', 2) else divs(a))
            d = padd(d, x)
        return d

    def divs(a):
        if a[0] in ('div', 'urem') and a[1][0] == 'p' and pconst(a[2]) == 3 and rewrite(a[1]) == padd(pmul(kx, K(64, 3)), rem):
            return kx if a[0] == 'div' else rem
        return A(64, a)

    def more(Z, a, w):
        if a == ('sym', 'rem'):
            hi, lo = Z.var('rem1'), Z.var('rem0')
            return [lo, hi] + [0]*(w - 2)
        if a[0] == 'hphi':
            return [Z.var(('?', a, b)) for b in range(w)]
        if a == ('kx', L.id):
            return kbits + [0]*(w - len(kbits))
        if a[0] == 'ld' and a[1] == 'i8':
            d = padd(rewrite(a[2]), padd(data, pmul(kx, K(64, 3))), -1)
            c = sconst(d)
            if c is not None and 0 <= c < 2:
                return tail.v[c]
        if a[0] == 'ltc' and rewrite(a[1]) in (data,) and a[2] == 1:
            return [0]
        return None
    Z2 = BDD()
    Z2.var('rem1'), Z2.var('rem0')
    kbits = [Z2.var(('groups', b)) for b in range(60)]
    tail = Bytes(Z2, 2)
    bt2 = Bits(g, leaf=lambda a, w: more(Z2, a, w), table=tab, Z=Z2, rewrite=rewrite)
    r1, r0 = Z2.var('rem1'), Z2.var('rem0')
    care = Z2.AND(Z2.NOT(Z2.AND(r1, r0)))
    two, one = Z2.AND(r1, Z2.NOT(r0)), Z2.AND(r0, Z2.NOT(r1))
    post = [(i, v) for i, v in ps if g.loop_of[i.bb] is None]
    post.sort(key=lambda x: (g.fn.rpo().index(x[0].bb), x[0].idx))
    for i, v in post:
        r.count('characters')
    pad = [(0x3d >> b) & 1 for b in range(8)]
    zero = [0]*8
    for nm, cs, by2, n in (('one byte left', one, [tail.v[0], zero], 2), ('two bytes left', two, [tail.v[0], tail.v[1], zero], 3)):
        seq = [(Z2.AND(cs, bt2.node(B.constrain(g.full(i.bb), nonnull))), i, v) for i, v in post]
        spec = [bt2.lookup(ALPHABET, six(by2, k)) for k in range(n)] + [pad]*(4 - n)
        sequence(r, 'tail', nm, Z2, bt2, cs, seq, spec, 2, F.where())
    none = Z2.AND(care, Z2.NOT(two), Z2.NOT(one))
    extra = [i for i, v in post if Z2.AND(none, bt2.node(B.constrain(g.full(i.bb), nonnull))) != 0]
    status(r, 'tail', 'no bytes left', not extra, 'a character is written without a byte left', (extra or [post[0][0]])[0].where())
    # reads
    for i in g.fn.all():
        if i.op != 'load':
            continue
        t = g.term(i.ops[0], g.loop_of[i.bb])
        if t[0] == 'p' and any(k == (('arg', 1),) for k, _ in t[2]):
            r.count('reads of data')
            sz = i['sz']
            if g.loop_of[i.bb] is L:
                d = padd(t, base, -1)
                c = sconst(d)
                if c is None:
                    r.und('reads', 'in a group', show(t), i.where())
                else:
                    status(r, 'reads', 'in a group', 0 <= c and c + sz <= 3, 'byte %d of a group of three is read' % c, i.where())
            elif g.loop_of[i.bb] is None:
                c = sconst(padd(rewrite(t), padd(data, pmul(kx, K(64, 3))), -1))
                cnd = Z2.AND(care, bt2.node(B.constrain(g.full(i.bb), nonnull)))
                if c is None:
                    r.und('reads', 'of the rest', show(t), i.where())
                else:
                    bad = [n for n, x in ((0, none), (1, one), (2, two)) if not 0 <= c < n - sz + 1 and Z2.AND(cnd, x) != 0]
                    status(r, 'reads', 'of the rest', not bad, 'byte %d is read with %s left' % (c, bad), i.where())
            else:
                r.und('reads', 'elsewhere', show(t), i.where())
    r.need('group', 8)
    r.need('tail', 9)
    r.need('reads', 4)


def put2(r, F, rule, inst, a, b, under, where):
    putb(r, F, rule, inst, a, b, under, where)


def header_cond(g, L, b):
    """Condition of getting into the body of the loop."""
    r = 1
    for u, v in L.exits:
        if g.loop_of[u] is L and u == L.header:
            r = g.B.AND(r, g.B.NOT(g.edge_local(u, v))) if not g.is_trip(u, v) else r
    return r


def sequence(r, rule, inst, Z, bt, care, seq, spec, nbytes, where):
    """The active entries of seq, in order, are spec, whenever care."""
    n = [care] + [0]*(len(spec) + 1)      # n[k]: k written so far
    bad = 0
    at = where
    diffs = [0]*len(spec)
    loc = [None]*len(spec)
    for c, i, v in seq:
        if c == 0:
            continue
        x = bt.vec(v)
        new = list(n)
        for k in range(len(n)):
            on = Z.AND(n[k], c)
            if on == 0:
                continue
            new[k] = Z.AND(new[k], Z.NOT(c))
            if k < len(spec):
                diffs[k] = Z.OR(diffs[k], Z.AND(on, Z.NOT(bt.eq(x, spec[k]))))
                loc[k] = loc[k] or i.where()
                new[k + 1] = Z.OR(new[k + 1], on)
            else:
                bad = Z.OR(bad, on)
                at = i.where()
        n = new
    for k, d in enumerate(diffs):
        settle(r, rule, '%s, character %d' % (inst, k + 1), Z, d, lambda d: 'is wrong for bytes ' + example(Z, d, nbytes),
               loc[k] or where)
    short = Z.OR(bad, *n[:len(spec)])
    settle(r, rule, inst + ', count', Z, short,
           lambda d: 'not %d are written for bytes %s' % (len(spec), example(Z, d, nbytes)), at)


# ------------------------------------------------------------------ T02
def c_t02(ws, r):
    m = module(ws, [('dec', DECODE, {})], srcs=tool_srcs(ws), unrollsize=400, unrollcalls=True)
    F = Fn(m, 'dec')
    g, B = F.g, F.B
    out, text = F.arg(0), F.arg(1)
    tab = tables(ws, m)
    nonnull = B.NOT(g.cmp('eq', text, K(64, 0)))
    loads = []
    for i in g.fn.all():
        if i.op == 'load':
            t = g.term(i.ops[0], g.loop_of[i.bb])
            alts = t[1] if t[0] == 'ite' else ((1, t),)
            if all(x[0] == 'p' and any(k == (('arg', 1),) for k, _ in x[2]) for _, x in alts):
                loads += [(i, x, c) for c, x in alts]
            elif ('arg', 1) in set(subterms(t)):
                raise AnalysisError('text is read at %s' % show(t)[:80])
    outer = None
    early = []
    for i, t, c in loads:
        l = g.loop_of[i.bb]
        if l is None and sconst(padd(t, text, -1)) in range(5):
            early.append((i, sconst(padd(t, text, -1)), c))
            continue
        while l is not None and l.parent is not None:
            l = l.parent
        if l is not None and (outer is None or l is outer):
            outer = l
        elif l is not outer:
            raise AnalysisError('text is read outside of one loop over groups')
    if outer is None:
        raise AnalysisError('no loop over groups of characters')
    L = outer
    iv = A(64, ('iv', L.id))
    base = padd(text, pmul(iv, K(64, 4)))
    Z = BDD()
    by = Bytes(Z, 5)
    ch = by.v
    leaf = by.leaf(base)

    def mk(env):
        def lf(a, w):
            if a == ('ltc', text, 1):
                return [0]
            if a[0] == 'hphi':
                return [Z.var(('?', a, b)) for b in range(w)]
            if a[0] in ('ld', 'ldv') and a[2][0] == 'ite':
                alts = [(bt.node(c), lf((a[0], a[1], x) + a[3:], w)) for c, x in a[2][1]]
                return bt.mux(alts) if all(x is not None for _, x in alts) else None
            if a[0] in ('ld', 'ldv') and a[2][0] == 'p':
                x = padd(a[2], base, -1) if a[2][0] == 'p' else None
                if x is not None and a[0] == 'ldv':
                    c = bt.resolve(x)
                    return by.v[c] if c is not None else None
                x = bt.rewrite_env(a[2])
                return leaf(('ld', a[1], x), w)
            return leaf(a, w)
        bt = Bits(g, leaf=lf, table=tab, env=env, Z=Z)

        def subst(t):
            d = K(64, 0)
            for k, c in t[2]:
                x = K(64, c)
                for q in k:
                    x = pmul(x, K(64, env[q]) if q in env else A(64, q))
                d = padd(d, x)
            return d
        bt.rewrite_env = subst
        bt.resolve = lambda x: (lambda c: c if c is not None and 0 <= c < 5 else None)(sconst(subst(x)))
        return bt
    top = mk({})
    # specification
    def isc(k, ps):
        return Z.OR(*[top.eq(ch[k], top.const(8, x)) for x in ps])
    valid = [isc(k, ALPHABET) for k in range(4)]
    pad = [isc(k, b'=') for k in range(5)]
    nul = [isc(k, [0]) for k in range(5)]
    code = []
    inv = bytearray(256)
    for x, c in enumerate(ALPHABET):
        inv[c] = x
    for k in range(4):
        code.append(top.lookup(bytes(inv), ch[k])[:6])
    three = Z.AND(*valid)
    two = Z.AND(*valid[:3], pad[3], nul[4])
    one = Z.AND(*valid[:2], pad[2], pad[3], nul[4])
    good = Z.OR(three, two, one)
    more = Z.NOT(nul[0])
    # what leaves the loop
    exits = []
    for u, v in L.exits:
        lu = g.loop_of[u]
        c = g.edge(u, v, L) if not g.is_trip(u, v) or lu is not L else B.AND(g.cond(u), g.edge_local(u, v))
        exits.append((u, v, c))
    ret = F.ret()
    if ret is None or ret[0] != 'b':
        raise AnalysisError('result is not understood')
    reach = B.AND(nonnull, g.region_reach(None).get(g.nkey(L), 0))
    if reach == 0:
        raise AnalysisError('the loop over groups is not reached')
    rn = B.constrain(ret[1], reach)
    if early:
        # characters are looked at before the loop
        loads = [x for x in loads if g.loop_of[x[0].bb] is not None]
        pl = by.leaf(text)
        pre = Bits(g, leaf=lambda a, w: [0] if a == ('ltc', text, 1) else pl(a, w), table=tab, env={}, Z=Z)
        at = early[0][0].where()
        stopped = B.AND(nonnull, B.NOT(reach))
        if stopped:
            x = B.constrain(ret[1], stopped)
            stop = pre.node(stopped)
            yes = Z.AND(stop, pre.node(x))
            settle(r, 'accepted', 'before the first group: success', Z, Z.AND(yes, Z.NOT(nul[0])),
                   lambda d: 'succeeds without decoding %s' % example(Z, d, 5), at)
            settle(r, 'accepted', 'before the first group: failure', Z, Z.AND(stop, Z.NOT(pre.node(x)), Z.OR(nul[0], good)),
                   lambda d: 'fails for valid text %s' % example(Z, d, 5), at)
        for i, k, c in early:
            cnd = Z.AND(pre.node(B.AND(nonnull, g.full(i.bb))), pre.node(c))
            settle(r, 'reads', 'before the first group, offset %d' % k, Z, Z.AND(cnd, Z.OR(*nul[:k])) if k else 0,
                   lambda d: 'reads past the end of the text for ' + example(Z, d, 5), i.where())
    ex = {}
    for v in B.support(rn):
        a = B.atoms[v]
        if a[0] == 'ex' and a[1] == L.id:
            ex[v] = a[2]
        elif a == ('trip', L.id):
            ex[v] = None
        else:
            raise AnalysisError('result depends on ' + show(a, B)[:100])
    stay = 1
    succ = fail = 0
    trip = L.trip_edge
    for u, v, c in exits:
        bits = top.node(c)
        now = Z.AND(stay, bits)
        x = rn
        # the loop is left through this exit: that is the one whose condition held
        for q, cond in ex.items():
            if cond is None:
                x = B.restrict(x, q, 1 if (u, v) == trip else 0)
            else:
                x = B.restrict(x, q, 1 if cond == c and (u, v) != trip else 0)
        if x not in (0, 1):
            raise AnalysisError('result is not understood')
        if x:
            succ = Z.OR(succ, now)
        else:
            fail = Z.OR(fail, now)
        stay = Z.AND(stay, Z.NOT(bits))
    at = loop_loc(g, L)
    r.count('exits', len(exits))

    def same(rule, inst, a, b, care, what):
        d = Z.AND(care, Z.XOR(a, b))
        settle(r, rule, inst, Z, d, lambda d: '%s for characters %s' % (what, example(Z, d, 5)), at)
    same('accepted', 'ends at the end of the text', succ, nul[0], 1, 'does not succeed exactly at the end')
    for inst, f in (('text that is valid', good), ('characters that are not base64', Z.AND(more, Z.NOT(Z.AND(
            *[Z.OR(valid[k], pad[k]) for k in range(4)])))), ('padding in the first two characters', Z.AND(more, Z.OR(pad[0], pad[1]))),
            ('padding followed by more', Z.AND(valid[0], valid[1], pad[2], valid[3])),
            ('padding followed by another group', Z.AND(valid[0], valid[1], pad[3], Z.NOT(nul[4]))),
            ('incomplete group', Z.AND(more, Z.OR(nul[1], Z.AND(Z.NOT(nul[1]), nul[2]), nul[3])))):
        same('accepted', inst, fail, Z.NOT(good), Z.AND(more, f), 'fails or succeeds where it should not')
    same('accepted', 'any group', fail, Z.NOT(good), more, 'fails or succeeds where it should not')
    # a null pointer
    putb(r, F, 'accepted', 'null', B.AND(ret[1], B.NOT(nonnull)), 0)
    # bytes written
    ps, other = pushes(F, out)
    for i in other:
        raise AnalysisError('the result is changed by %s' % i['dem'][:80])
    inst = []
    order = {b: n for n, b in enumerate(g.fn.rpo())}
    groups = {}
    for i, v in ps:
        l = g.loop_of[i.bb]
        r.count('bytes written')
        chain = []
        while l is not None and l is not L:
            chain.append(l)
            l = l.parent
        if l is not L or len(chain) > 1:
            raise AnalysisError('bytes are written outside of the loop over groups')
        groups.setdefault(chain[0] if chain else None, []).append((i, v))
    seq = []
    for l, xs in groups.items():
        xs.sort(key=lambda x: (order[x[0].bb], x[0].idx))
        if l is None:
            for i, v in xs:
                seq.append((order[i.bb], top.node(g.cond(i.bb)), i, v, top))
            continue
        enter = top.node(g.region_reach(L).get(g.nkey(l), 0))
        alive = enter
        for k in range(5):
            bt = mk({('iv', l.id): k})
            for i, v in xs:
                # leaving before the write
                c = Z.AND(alive, bt.node(g.cond(i.bb)))
                out_ = 0
                for u, w in l.exits:
                    if g.loop_of[u] is l and g.fn.dominates(u, i.bb) and u != i.bb:
                        out_ = Z.OR(out_, bt.node(g.edge_local(u, w)))
                c = Z.AND(c, Z.NOT(out_))
                if c != 0:
                    seq.append((order[i.bb] + k/100.0, c, i, v, bt))
            leave = 0
            for u, w in l.exits:
                leave = Z.OR(leave, bt.node(B.AND(g.cond(u), g.edge_local(u, w))))
            alive = Z.AND(alive, Z.NOT(leave))
            if alive == 0:
                break
        if alive != 0:
            raise AnalysisError('loop that writes bytes has more than 4 passes')
    seq.sort(key=lambda x: x[0])
    c = code
    allb = c[3] + c[2] + c[1] + c[0]           # 24 bits, least significant first
    spec3 = [allb[16:24], allb[8:16], allb[0:8]]
    for nm, care, n in (('three bytes', three, 3), ('two bytes', two, 2), ('one byte', one, 1)):
        sequence_bt(r, 'bytes', nm, Z, top, Z.AND(care, stay), [(s[1], s[2], s[4].vec(s[3])) for s in seq], spec3[:n], 5, at)
    # reads
    for i, t, ac in loads:
        l = g.loop_of[i.bb]
        r.count('reads of the text')
        envs = [{}]
        if l is not L and l is not None:
            if l.parent is not L:
                raise AnalysisError('text is read in nested loops')
            envs = [{('iv', l.id): k} for k in range(6)]
        enter = 1 if l is L else top.node(g.region_reach(L).get(g.nkey(l), 0))
        for env in envs:
            bt = mk(env)
            off = sconst(padd(bt.rewrite_env(t), base, -1))
            if off is None:
                r.und('reads', 'address', show(t)[:100], i.where())
                continue
            if not 0 <= off <= 4:
                r.bad('reads', 'offset %d' % off, 'reads %d characters from the start of a group' % off, i.where())
                continue
            cnd = Z.AND(enter, bt.node(g.cond(i.bb)), bt.node(ac))
            if l is not L:
                # earlier passes went on
                for k in range(env[('iv', l.id)]):
                    b2 = mk({('iv', l.id): k})
                    for u, w in l.exits:
                        cnd = Z.AND(cnd, Z.NOT(b2.node(B.AND(g.cond(u), g.edge_local(u, w)))))
                if cnd == 0:
                    continue
            d = Z.AND(cnd, Z.OR(*nul[:off])) if off else 0
            settle(r, 'reads', 'offset %d' % off, Z, d, lambda d: 'reads past the end of the text for ' + example(Z, d, 5), i.where())
    r.need('bytes', 9)
    r.need('reads', 3)


def sequence_bt(r, rule, inst, Z, bt, care, seq, spec, nbytes, where):
    class V:
        pass
    v = V()
    v.vec = lambda x: x
    v.eq = bt.eq
    sequence(r, rule, inst, Z, v, care, [(c, i, x) for c, i, x in seq], spec, nbytes, where)
