"""C06 validity and sizes, C07 names, C08 vertex counts, C09 index helpers, C10 vertex formats,
C11 bounds, C12 hardware half floats, C05 writing relative to bounds."""
import itertools
import math
from ..codec import LAYOUTS, TYPES, PAIRS, Codec, valid, retvals
from .codec_checks import locf
from ..lib import *
from ..absbits import Undecided

SIGS = {
    'append': 'vfc::VertexFormat::appendElement(std::__cxx11::basic_string<char, std::char_traits<char>, '
              'std::allocator<char>>, vfc::ElementLayout, vfc::ElementType)',
    'find': 'vfc::VertexFormat::find(char const*) const',
    'contains': 'vfc::VertexFormat::containsElements(vfc::VertexFormat const&) const',
    'bounded': 'vfc::VertexValue::toData(void*, vfc::ElementLayout, vfc::ElementType, vfc::VertexValue const&, '
               'vfc::VertexValue const&) const',
}
COLOR = {'X8': 'R8', 'X8Y8': 'R8G8', 'X8Y8Z8': 'R8G8B8', 'X8Y8Z8W8': 'R8G8B8A8', 'W2X10Y10Z10': 'A2R10G10B10',
         'W2Z10Y10X10': 'A2B10G10R10', 'X16': 'R16', 'X16Y16': 'R16G16', 'X16Y16Z16': 'R16G16B16',
         'X16Y16Z16W16': 'R16G16B16A16', 'X32': 'R32', 'X32Y32': 'R32G32', 'X32Y32Z32': 'R32G32B32',
         'X32Y32Z32W32': 'R32G32B32A32', 'X64': 'R64', 'X64Y64': 'R64G64', 'X64Y64Z64': 'R64G64B64',
         'X64Y64Z64W64': 'R64G64B64A64', 'Z10Y11X11_UFloat': 'B10G11R11_UFloat', 'E5Z9Y9X9_UFloat': 'E5B9G9R9_UFloat'}
PRIMS = ['PointList', 'LineList', 'LineStrip', 'TriangleList', 'TriangleStrip', 'TriangleFan', 'PatchList']


def enums(ws):
    m = Module(ws.ir(ws.lib_sources(), spec=[], keep=[], inline=[], roots=[], emit=['^vfc::isElementValid',
                                                                                   '^vfc::primitiveTypeName']))
    out = {}
    for q, names in (('vfc::ElementLayout', LAYOUTS), ('vfc::ElementType', TYPES), ('vfc::PrimitiveType', PRIMS)):
        e = m.enum(q)
        for n in names:
            if n not in e:
                raise AnalysisError('enumerator %s::%s not found' % (q, n))
        out[q.split('::')[1]] = {n: e[n] for n in names}
    return out


def constval(F):
    """Constant result of a fully specialised function, or None."""
    t = F.ret()
    if t is None:
        return None
    if t[0] == 'b':
        return t[1] if t[1] in (0, 1) else None
    c = pconst(t) if t[0] == 'p' else None
    return c


# ------------------------------------------------------------------ C06
def c06(ws, r):
    e = enums(ws)
    L, T = e['ElementLayout'], e['ElementType']
    byv = {v: k for k, v in L.items()}
    sp = []
    for v in range(-128, 128):
        sp.append(('size|%d' % v, 'vfw_layoutSize', {0: v}))
    tv = sorted(set(T.values()) | {-1})
    for v in sorted(set(L.values()) | {-128, -2, -1, len(L), len(L) + 1, 127}):
        for t in tv:
            sp.append(('valid|%d|%d' % (v, t), 'vfw_validElement', {0: v, 1: t}))
    m = module(ws, sp)
    for n, _, a in sp:
        F = Fn(m, n)
        r.count('specialised functions')
        c = constval(F)
        if n.startswith('size'):
            l = byv.get(a[0])
            want = LAYOUTS[l][1] if l else 0
            inst = l or 'layout value %d' % a[0]
            rule = 'layout-size'
        else:
            l = byv.get(a[0])
            t = {v: k for k, v in T.items()}.get(a[1])
            want = int(bool(l and t and valid(l, t)))
            inst = '%s/%s' % (l or 'layout value %d' % a[0], t or 'type value %d' % a[1])
            rule = 'valid-combination'
        if c is None:
            (r.bad if F.ret() == ('undef',) else r.und)(
                rule, inst, 'the result is undefined (read outside of the table)' if F.ret() == ('undef',) else 'not a constant',
                F.where())
        elif c != want:
            r.bad(rule, inst, 'gives %d, documented is %d' % (c, want), F.where())
        else:
            r.ok(rule, inst, str(c))
    # every valid combination can be read and written
    c = Codec(ws, hw=(0,))
    for l, t in PAIRS:
        for d, nm in (('dec', 'fromData'), ('enc', 'toData')):
            inst = '%s %s/%s' % (nm, l, t)
            try:
                rv = retvals(c.interp(d, 0, l, t))
            except Undecided as x:
                r.und('codec-accepts', inst, str(x))
                continue
            if False in rv:
                r.bad('codec-accepts', inst, 'a valid element is rejected', locf(c, d))
            else:
                r.put('ok' if set(rv) == {True} else 'undecided', 'codec-accepts', inst)
    r.need('layout-size', 200)
    r.need('valid-combination', 120)
    r.need('codec-accepts', 140)


# ------------------------------------------------------------------ C07
def c07(ws, r):
    e = enums(ws)
    L, T, Pm = e['ElementLayout'], e['ElementType'], e['PrimitiveType']
    sp = []
    for v in range(-128, 128):
        for c in (0, 1):
            sp.append(('layout|%d|%d' % (v, c), 'vfw_layoutName', {0: v, 1: c}))
        sp.append(('type|%d' % v, 'vfw_typeName', {0: v}))
        sp.append(('prim|%d' % v, 'vfw_primName', {0: v}))
    m = module(ws, sp)
    for n, _, a in sp:
        F = Fn(m, n)
        r.count('specialised functions')
        k = n.split('|')[0]
        tab = {'layout': L, 'type': T, 'prim': Pm}[k]
        nm = {v: x for x, v in tab.items()}.get(a[0])
        want = (COLOR[nm] if nm and a.get(1) else nm) if k == 'layout' else nm
        t = F.ret()
        c = pconst(t) if t and t[0] == 'p' else None
        s = string_of(m, t) if t else None
        if isinstance(s, bytes):
            s = s.decode('latin1')
        inst = '%s %s%s' % (k, nm or 'value %d' % a[0], ' color' if a.get(1) else '')
        if want is None:
            if c == 0:
                r.ok('name', inst, 'no name')
            elif s is not None:
                r.bad('name', inst, 'an invalid enumerator has the name "%s"' % s, F.where())
            elif t == ('undef',):
                r.bad('name', inst, 'the name is undefined (read outside of the table)', F.where())
            else:
                r.und('name', inst, 'unknown result', F.where())
        elif s == want:
            r.ok('name', inst, s)
        elif s is not None or c == 0:
            r.bad('name', inst, 'named %s instead of %s' % (s, want), F.where())
        else:
            r.und('name', inst, 'not a constant string', F.where())
    names_lookup(ws, r, L, T, Pm)
    r.need('name', 800)
    r.need('lookup-table', 50)


def names_lookup(ws, r, L, T, Pm):
    inits = [f['name'] for f in Module(ws.ir(lib_srcs(ws), spec=[], keep=[], inline=[], roots=[],
                                             emit=['_GLOBAL__sub_I_'])).d['functions'] if f['name'].startswith('_GLOBAL__sub_I_')]
    m = module(ws, [('i|' + n, n, {}) for n in inits] +
               [('f|' + n, 'vfw_%sFrom' % n, {}) for n in ('layout', 'type', 'prim')])
    # tables that the maps are built from
    tables = {}
    for n in inits:
        F = Fn(m, 'i|' + n)
        for i, c in F.calls():
            d = i.get('dem', '')
            if not d.startswith('std::unordered_map<') or '::unordered_map(' not in d or len(i['args']) < 3:
                continue
            a = F.g.args(i)
            obj = atom_of(a[0])
            cnt = pconst(a[2]) if a[2][0] == 'p' else None
            if obj is None or obj[0] != 'glob' or cnt is None:
                continue
            ent = []
            for j in range(cnt):
                p = padd(a[1], K(64, 16*j))
                s = string_of(m, F.g.value_before(p, 'i64', i, F.g.loop_of[i.bb]))
                v = F.g.value_before(padd(p, K(64, 8)), 'i8', i, F.g.loop_of[i.bb])
                v = pconst(v) if v[0] == 'p' else None
                ent.append((s.decode('latin1') if isinstance(s, bytes) else s, v))
            tables[obj[1]] = (ent, i.where(), d)
            r.count('lookup tables')
    for k, tab, color in (('layout', L, COLOR), ('type', T, {}), ('prim', Pm, {})):
        F = Fn(m, 'f|' + k, extra={'callv'})
        finds = [(i, c) for i, c in F.calls() if re.search(r'unordered_map<.*::find\(', i.get('dem', ''))]
        objs = {atom_of(F.g.args(i)[0]) for i, c in finds}
        if len(objs) != 1 or None in objs or (list(objs)[0][1] if list(objs)[0][0] == 'glob' else None) not in tables:
            r.und('lookup-table', k, 'the lookup is not a search in a constant map', F.where())
            continue
        ent, wh, dem = tables[list(objs)[0][1]]
        want = {n.lower(): v & 255 for n, v in tab.items()}
        want.update({color[n].lower(): v & 255 for n, v in tab.items() if n in color})
        seen = {}
        for s, v in ent:
            if s is None or v is None:
                r.und('lookup-table', '%s entry' % k, 'not constant', wh)
                continue
            seen.setdefault(s.lower(), v)
        for s, v in sorted(want.items()):
            if s not in seen:
                if len(seen) == len(ent):
                    r.bad('lookup-table', '%s %s' % (k, s), 'the name can not be looked up', wh)
                else:
                    r.und('lookup-table', '%s %s' % (k, s), '', wh)
            elif seen[s] != v:
                r.bad('lookup-table', '%s %s' % (k, s), 'the name gives enumerator value %d instead of %d' % (seen[s], v), wh)
            else:
                r.ok('lookup-table', '%s %s' % (k, s), 'value %d' % v)
        for s in seen:
            if s not in want:
                r.bad('lookup-extra', '%s %s' % (k, s), 'a name that is not documented is accepted', wh)
        # the result
        i, c = finds[0]
        g, B = F.g, F.B
        null = g.cmp('eq', F.arg(0), K(64, 0))
        putb(r, F, 'null-not-searched', k, c, B.NOT(null), where=i.where())
        t = F.ret()
        it = g.term(['v', i.id], g.loop_of[i.bb])
        key = g.args(i)[1]
        kv = g.value_before(key, 'i64', i, g.loop_of[i.bb]) if key[0] == 'p' else None
        putt(r, F, 'key', k, kv, F.arg(0), under=c, where=i.where())
        hit = padd(it, K(64, 16))
        res = resolve_result(F, t, it)
        for inst, cond, want_t in (('%s null' % k, null, K(8, 255)),):
            putt(r, F, 'lookup-result', inst, t, want_t, under=null)
        if res is None:
            r.und('lookup-result', k, 'form of the result not recognised', F.where())
        else:
            found, other = res
            good = found is not None and found == hit
            r.put('ok' if good else 'undecided', 'lookup-result', k + ' found', 'the value stored with the name', F.where())
            r.put('ok' if other == 255 else 'violation', 'lookup-result', k + ' unknown',
                  'invalid' if other == 255 else 'an unknown name gives %s' % other, F.where())
        eqhash(ws, r, dem, k)


def resolve_result(F, t, it):
    """(address loaded when found, constant otherwise) for `it == end ? Invalid : it->second`."""
    if t[0] != 'ite':
        return None
    B = F.B
    ats = [v for c, _ in t[1] for v in B.support(c)]
    it_at = atom_of(it)
    ev = None
    for v in set(ats):
        a = B.atoms[v]
        if a[0] in ('eq', 'ltc') and any(x == it_at for x in subterms(a)) and 'end' in str(a):
            ev = v
    if ev is None:
        return None
    null = F.g.cmp('eq', F.arg(0), K(64, 0))
    out = []
    for val in (0, 1):
        xs = [x for c, x in t[1] if B.AND(B.restrict(c, ev, val), B.NOT(null)) != 0]
        if len(xs) != 1:
            return None
        out.append(xs[0])
    a = atom_of(out[0])
    c = pconst(out[1])
    if c is None:
        return None
    return (a[2] if a is not None and a[0] in ('ld', 'ldv') else None), c


def eqhash(ws, r, dem, k):
    """Equality and hash of the keys ignore case: both use the characters through case folding only."""
    key, hsh, eq = map_policy(dem)
    m = Module(ws.ir(lib_srcs(ws), spec=[], keep=BASE + [re.escape(hsh) + r'::operator\(\)', re.escape(eq) + r'::operator\(\)'],
                     inline=[], roots=[], unroll=0, post=POST, final=FINAL,
                     emit=[re.escape(hsh) + r'::operator\(\)', re.escape(eq) + r'::operator\(\)']))
    hf = m.find(hsh + '::operator()')
    ef = m.find(eq + '::operator()')
    for f, what in ((hf, 'hash'), (ef, 'equality')):
        if len(f) != 1:
            r.und('case-' + what, k, 'function not found')
            continue
        F = Fn(m, f[0].name, pure=[lambda d: d in CTYPE or d == 'strchr'], extra=('hphi', 'ld'))
        if what == 'equality':
            t = F.ret()
            atoms = [F.B.atoms[v] for v in F.B.support(F.g.asbool(t))]
            names = {a[1] for a in atoms for a in subterms(a) if a[0] == 'call'}
            if len(atoms) == 1 and names == {'strcasecmp'}:
                x = F.g.cmp('eq', A(32, [a for a in subterms(atoms[0]) if a[0] == 'call'][0]), K(32, 0))
                r.put('ok' if x == F.g.asbool(t) else 'violation', 'case-equality', k, 'strcasecmp', F.where())
            elif names & {'strcmp', 'strncmp'} or any(IS_STREQ(n) for n in names):
                r.bad('case-equality', k, 'names are compared with %s' % ', '.join(sorted(names)), F.where())
            elif 'strncasecmp' in names:
                r.bad('case-equality', k, 'only a part of the names is compared', F.where())
            else:
                r.und('case-equality', k, 'comparison not recognised', F.where())
        else:
            hash_case(r, F, k)
    r.count('key policies')


def hash_case(r, F, k):
    """Every use of a character of the name goes through tolower/toupper of its unsigned value, or only
    decides whether it is the terminator."""
    f = F.f
    chars = [i for i in f.all() if i.op == 'load' and i['ty'] == 'i8']
    if not chars:
        r.und('case-hash', k, 'no characters are read', F.where())
        return
    bad, und, sgn = [], [], []
    fold = 0
    for c in chars:
        st, seen = [(c, None)], set()
        while st:
            i, ext = st.pop()
            for u in f.uses.get(i.id, []):
                if (u.id, ext) in seen:
                    continue
                seen.add((u.id, ext))
                if u.op in ('sext', 'zext', 'trunc', 'freeze', 'phi'):
                    st.append((u, u.op if u.op in ('sext', 'zext') and ext is None else ext))
                elif u.op == 'icmp':
                    o = [x for x in u.ops if x != ['v', i.id]]
                    if not (o and o[0][0] == 'i' and int(o[0][2]) == 0):
                        und.append(u)
                elif u.op in ('call', 'invoke') and u.get('dem') in ('tolower', 'toupper'):
                    fold += 1
                    if ext == 'sext':
                        sgn.append(u)
                elif u.op in ('add', 'mul', 'xor', 'shl', 'sub'):
                    bad.append(u)
                else:
                    und.append(u)
    if sgn:
        r.bad('case-hash', k, 'a negative character is given to %s' % sgn[0].get('dem'), sgn[0].where())
    elif not bad and not und:
        r.ok('case-hash', k, '%d uses through tolower/toupper' % fold, F.where())
    else:
        s, d = hash_values(F)
        r.put(s, 'case-hash', k, d, (bad + und)[0].where())


CTYPE = {'tolower': lambda c: c + 32 if 65 <= c <= 90 else c, 'toupper': lambda c: c - 32 if 97 <= c <= 122 else c,
         'isupper': lambda c: int(65 <= c <= 90), 'islower': lambda c: int(97 <= c <= 122),
         'isalpha': lambda c: int(65 <= c <= 90 or 97 <= c <= 122), 'isdigit': lambda c: int(48 <= c <= 57)}


def hash_values(F):
    """The state after each character, with every upper case letter put in for the character, against the state with
    the lower case letter."""
    g, f = F.g, F.f
    n = 0

    def put(c):
        def h(x):
            if x[0] == 'ld' and x[1] == 'i8':
                return K(8, c)
            if x[0] == 'call' and x[1] in CTYPE and len(x[2]) == 1:
                v = pconst(x[2][0]) if x[2][0][0] == 'p' else None
                if v is not None:
                    return K(32, CTYPE[x[1]](v))
            if x[0] == 'call' and x[1] == 'strchr' and len(x[2]) == 2:
                v = pconst(x[2][1]) if x[2][1][0] == 'p' else None
                w = string_of(F.m, x[2][0])
                if v is not None and w is not None:
                    w = w.encode('latin1') if isinstance(w, str) else w
                    return K(64, int(v == 0 or bytes([v & 255]) in w))
            return None
        return h
    hs = {c: put(c) for c in list(range(65, 91)) + list(range(97, 123))}
    for l in g.loops:
        for i in f.all():
            if i.op != 'phi' or i.bb != l.header:
                continue
            for o, b in i['in']:
                if b not in l.blocks:
                    continue
                t = g.term(o, l)
                if not any(a[0] == 'ld' and a[1] == 'i8' for a in F.c.walk(t) if isinstance(a, tuple) and a):
                    continue
                for c in range(65, 91):
                    x, y = F.c.subst(t, hs[c]), F.c.subst(t, hs[c + 32])
                    s, d = F.c.teq(x, y)
                    if s == 'violation':
                        return s, 'the hash of %c differs from the hash of %c' % (c, c + 32)
                    if s != 'ok':
                        return 'undecided', 'arithmetic on characters'
                    n += 1
    if not n:
        return 'undecided', 'no update of the hash found'
    return 'ok', '%d letters' % n


def split_targs(s):
    """Template arguments of the first template in s."""
    a = s.index('<')
    out, d, cur = [], 0, ''
    for ch in s[a + 1:]:
        if ch == '<' or ch == '(':
            d += 1
        if ch == '>' or ch == ')':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def map_policy(dem):
    t = split_targs(dem)
    return t[0], t[2], t[3]


# ------------------------------------------------------------------ C08
def c08(ws, r):
    Pm = enums(ws)['PrimitiveType']
    byv = {v: k for k, v in Pm.items()}
    m = module(ws, [('n|%d' % v, 'vfw_validCount', {0: v}) for v in range(-128, 128)])
    for v in range(-128, 128):
        F = Fn(m, 'n|%d' % v)
        r.count('specialised functions')
        g, B = F.g, F.B
        n, k = F.arg(1, 32), F.arg(2, 32)
        p = byv.get(v)
        is0 = lambda t: g.cmp('eq', t, K(32, 0))
        under = 1
        if p is None:
            spec = 0
        elif p == 'PointList':
            spec = 1
        elif p == 'LineList':
            spec = is0(g.divterm('urem', n, K(32, 2)))
        elif p == 'LineStrip':
            spec = g.cmp('ne', n, K(32, 1))
        elif p == 'TriangleList':
            spec = is0(g.divterm('urem', n, K(32, 3)))
        elif p in ('TriangleStrip', 'TriangleFan'):
            spec = B.OR(is0(n), B.NOT(g.cmp('ult', n, K(32, 3))))
        else:
            spec = is0(A(32, ('urem', n, k)))
            under = B.NOT(is0(k))
        t = F.ret()
        if t is None:
            r.und('count-valid', p or 'value %d' % v, 'no result')
            continue
        putb(r, F, 'count-valid', p or 'value %d' % v, g.asbool(t), spec, under)
    r.need('count-valid', 256)


# ------------------------------------------------------------------ C09
def c09(ws, r):
    W = {1: 2, 2: 4}
    sp = []
    for t in range(3):
        for n in ('getIndex', 'setIndex', 'indexSize', 'maxIndex', 'restartIndex', 'getIndexDefault'):
            sp.append(('%s|%d' % (n, t), 'vfw_' + n, {0: t}))
    m = module(ws, sp)
    names = {0: 'NoIndices', 1: 'UInt16', 2: 'UInt32'}
    for n, _, a in sp:
        F = Fn(m, n)
        r.count('specialised functions')
        g, B = F.g, F.B
        kind, v = n.split('|')[0], a[0]
        inst = '%s %s' % (kind, names.get(v, 'value %d' % v))
        null = g.cmp('eq', F.arg(1), K(64, 0))
        t = F.ret()
        if t is None:
            r.und('result', inst, 'no result')
            continue
        if kind in ('indexSize', 'maxIndex', 'restartIndex'):
            want = {'indexSize': {1: 2, 2: 4}.get(v, 0), 'maxIndex': {1: 0xFFFE, 2: 0xFFFFFFFE}.get(v, 0),
                    'restartIndex': {1: 0xFFFF, 2: 0xFFFFFFFF}.get(v)}[kind]
            c = pconst(t) if t[0] == 'p' else None
            if want is None:
                continue
            if c is None:
                (r.bad if t == ('undef',) else r.und)('limits', inst, 'not a constant', F.where())
            else:
                r.put('ok' if c == want else 'violation', 'limits', inst,
                      str(c) if c == want else 'gives %d instead of %d' % (c, want), F.where())
            continue
        w = W.get(v)
        addr = padd(F.arg(1), pmul(F.arg(2), K(64, w or 0)))
        if kind.startswith('getIndex'):
            dflt = F.arg(3, 32) if kind == 'getIndex' else K(32, 0xFFFFFFFF)
            if w is None:
                spec = dflt
            else:
                x = F.ld(addr, 0, 'i%d' % (8*w))
                x = g.cast('zext', x, 32, 16) if w == 2 else x
                spec = g.mkite([(null, dflt), (B.NOT(null), x)])
            putt(r, F, 'reads-index', inst, t, spec)
            if F.stores():
                r.bad('reads-only', inst, 'a read modifies memory', F.stores()[0][0].where())
        else:
            spec = 0 if w is None else B.NOT(null)
            putb(r, F, 'write-result', inst, g.asbool(t), spec)
            val = F.arg(3, 32)
            if w == 2:
                val = g.cast('trunc', val, 16, 32)
            writes_exactly(r, F, inst, [(addr, 'i%d' % (8*(w or 4)), val, spec)] if w else [])
    r.need('reads-index', 6)
    r.need('limits', 8)
    r.need('writes', 2)


def writes_exactly(r, F, inst, want, rule='writes'):
    """want: [(addr, type, value, condition)]: memory changes exactly so."""
    g, B = F.g, F.B
    for addr, ty, val, c in want:
        t = F.final(addr, ty)
        init = g.initial(addr, ty)
        putt(r, F, rule, inst, t, g.mkite([(c, val), (B.NOT(c), init)]))
    for i, c in F.stores():
        sa = g.term(i.ops[1], g.loop_of[i.bb])
        ok = False
        for addr, ty, val, c2 in want:
            if sa[0] == 'p' and root_off(sa)[0] == root_off(addr)[0]:
                o = (sconst(padd(sa, addr, -1)) or 0) if pconst(padd(sa, addr, -1)) is not None else None
                if o is not None and 0 <= o and o + i.get('ssz', 8) <= g.tysz(ty):
                    ok = True
        if ok:
            r.ok('writes-only', inst, '', i.where())
        elif sa[0] != 'p' or F.c.unknown(sa):
            r.und('writes-only', inst, 'unknown address', i.where())
        elif any(F.c.teq(sa, addr)[0] == 'violation' for addr, *_ in want) or not want:
            r.bad('writes-only', inst, 'writes %s, which is not the element' % show(sa, B), i.where())
        else:
            r.und('writes-only', inst, 'address %s' % show(sa, B), i.where())


# ------------------------------------------------------------------ C10
def c10(ws, r):
    pure = [lambda d: d.startswith(('vfc::isElementValid', 'vfc::elementLayoutSize'))]
    sp = [('s|' + k, SIGS[k], {}) for k in ('append', 'find', 'contains')] + \
         [('s|' + k, 'vfw_' + k, {}) for k in ('clear', 'fmtEq', 'fmtNe', 'elEq', 'elNe', 'stride', 'size', 'empty', 'format')]
    m = module(ws, sp, keep=['^vfc::isElementV', '^vfc::elementLayoutSize'])

    def one(k):
        r.count('functions')
        return Fn(m, 's|' + k, pure)
    guarded(r, 'append', lambda: append(r, one('append')))
    guarded(r, 'find', lambda: find(r, one('find')))
    guarded(r, 'contains', lambda: contains(r, one('contains')))
    for k in ('fmtEq', 'fmtNe', 'elEq', 'elNe'):
        guarded(r, 'compare', lambda: compare(r, one(k), k))
    guarded(r, 'accessors', lambda: accessors(r, one))
    r.need('append-result', 1)
    r.need('append-element', 4)
    r.need('lookup', 1)
    r.need('equality', 4)


def guarded(r, rule, f):
    try:
        f()
    except AnalysisError as e:
        if e.fatal:
            raise
        r.und(rule, 'anchors', str(e))


MUT = re.compile(r'std::vector<.*>::(\w+)(<[^()]*>)?\(')


def append(r, F):
    g, B = F.g, F.B
    this, name, lay, typ = F.arg(0), F.arg(1), F.arg(2, 8), F.arg(3, 8)
    n = vecsize(F, this, 40)
    q = A(64, ('qv', 0))
    begin = F.ld(this)
    dup = F.EX(n, F.nameeq(padd(begin, pmul(q, K(64, 40))), name))
    vcall = [i for i, _ in F.calls() if i.get('dem', '').startswith('vfc::isElementValid')]
    if not vcall:
        r.und('append-result', 'appendElement', 'validity is not asked of isElementValid()', F.where())
        return
    valid_ = None
    for i in vcall:
        a = g.args(i)
        if a == [lay, typ]:
            valid_ = g.asbool(g.term(['v', i.id], g.loop_of[i.bb]))
        else:
            s, d = F.c.teq(a[0], lay)
            if s == 'violation':
                r.bad('append-valid-args', 'appendElement', 'checks another layout: ' + d, i.where())
                return
    if valid_ is None:
        r.und('append-result', 'appendElement', 'arguments of isElementValid()', F.where())
        return
    good = B.AND(valid_, B.NOT(dup))
    t = F.ret()
    for k, (code, nm, spec) in enumerate((( 0, 'succeeds', good), )):
        c = g.lift(lambda x: ('b', g.cmp('eq', x, K(x[1], code))), t)
        if c is None:
            r.und('append-result', nm, 'result')
        else:
            putb(r, F, 'append-result', nm, g.asbool(c), spec)
    for code, nm, spec in ((1, 'NameNotUnique', dup), (2, 'ElementInvalid', B.NOT(valid_))):
        c = g.lift(lambda x: ('b', g.cmp('eq', x, K(x[1], code))), t)
        if c is not None:
            x = F.canonb(g.asbool(c))
            putb(r, F, 'append-reason', nm, B.AND(x, B.NOT(F.canonb(spec))), 0)
    # the element and the stride
    adds = 0
    for i, c in F.calls():
        d = i.get('dem', '')
        mm = MUT.match(d)
        if not mm or g.args(i)[0] != this:
            continue
        if mm.group(1) not in ('push_back', 'emplace_back'):
            r.und('append-last', mm.group(1), 'way of adding the element', i.where())
            continue
        adds += 1
        putb(r, F, 'append-last', mm.group(1), c, good, where=i.where())
        el = g.args(i)[1] if len(i['args']) > 1 else None
        if el is None or len(i['args']) != 2 or el[0] != 'p':
            r.und('append-element', 'fields', 'element is built in place', i.where())
            continue
        cx = g.loop_of[i.bb]
        for nm, off, ty, spec in (('layout', 32, 'i8', lay), ('type', 33, 'i8', typ), ('offset', 36, 'i32', F.ld(this, 24, 'i32'))):
            putt(r, F, 'append-element', nm, g.value_before(padd(el, K(64, off)), ty, i, cx), spec, under=c, where=i.where())
        src = [g.args(j)[1] for j, _ in F.calls() if 'basic_string' in j.get('dem', '') and len(j['args']) > 1
               and g.args(j)[0] == el]
        r.put('ok' if src == [name] else 'undecided', 'append-element', 'name', 'initialised with the argument', i.where())
    if adds == 0:
        r.und('append-last', 'appendElement', 'no element is added in a way that is recognised', F.where())
    sc = [(i, c) for i, c in F.calls() if i.get('dem', '').startswith('vfc::elementLayoutSize')]
    sizes = [g.term(['v', i.id], g.loop_of[i.bb]) for i, _ in sc if g.args(i) == [lay]]
    st = F.final(padd(this, K(64, 24)), 'i32')
    if sizes:
        old = F.ld(this, 24, 'i32')
        putt(r, F, 'append-stride', 'stride', st, g.mkite([(good, padd(old, sizes[0])), (B.NOT(good), old)]))
    else:
        bad = [i for i, _ in sc]
        r.und('append-stride', 'stride', 'size of the layout not found', bad[0].where() if bad else F.where())


def find(r, F):
    g, B = F.g, F.B
    this, name = F.arg(0), F.arg(1)
    t = F.ret()
    begin = F.ld(this)
    q = A(64, ('qv', 0))
    eq = F.nameeq(padd(begin, pmul(q, K(64, 40))), name)
    n = vecsize(F, this, 40)
    found = F.EX(n, eq)
    # not at the end exactly when the name exists
    end = padd(begin, pmul(n, K(64, 40)))
    c = g.lift(lambda x: ('b', B.NOT(at_end(g, x, F))), t)
    if c is None or any(a[0] in ('hphi', 'opq') for a in subterms(t)):
        r.und('lookup', 'found', 'position %s' % show(t, B)[:80], F.where())
        return
    ls = [l for l in g.loops if l.trip is not None]
    if len(ls) == 1:
        # the search: all elements in order, left at the first one with this name
        l = ls[0]
        brk = 0
        for x in l.exits:
            if x != l.trip_edge:
                brk = B.OR(brk, g.edge(x[0], x[1], l))
        iv = A(64, ('iv', l.id))
        spec = F.nameeq(padd(begin, pmul(iv, K(64, 40))), name)
        putb(r, F, 'lookup', 'stops at the element with the name', brk, spec)
        putt(r, F, 'lookup', 'searches every element', l.trip, n)
        k = A(64, ('kx', l.id))
        pos = padd(begin, pmul(k, K(64, 40)))
        inside = found
        s, d = F.c.teq(F.canont(t), F.canont(pos), 1)
        if s != 'ok' and t[0] == 'ite':
            # a separate result for the end
            alts = [x for _, x in t[1]]
            if all(x in (pos, end, F.ld(this, 8)) for x in alts):
                s, d = 'ok', ''
        r.put(s, 'lookup', 'result', d, F.where())
    else:
        r.und('lookup', 'found', 'search loop', F.where())


def at_end(g, x, F):
    end = F.ld(F.arg(0), 8)
    return g.cmp('eq', x, end)


def contains(r, F):
    g, B = F.g, F.B
    this, oth = F.arg(0), F.arg(1)
    q0, q1 = A(64, ('qv', 0)), A(64, ('qv', 1))
    a = padd(F.ld(oth), pmul(q0, K(64, 40)))
    b = padd(F.ld(this), pmul(q1, K(64, 40)))
    inner = F.EX(vecsize(F, this, 40), F.nameeq(a, b))
    spec = B.NOT(F.EX(vecsize(F, oth, 40), B.NOT(inner)))
    t = F.ret()
    putb(r, F, 'contains', 'containsElements', g.asbool(t), spec)


def compare(r, F, k):
    g, B = F.g, F.B
    a, b = F.arg(0), F.arg(1)
    t = g.asbool(F.ret())
    if k.endswith('Ne'):
        t = B.NOT(t)

    def el(x, y):
        c = F.nameeq(x, y)
        for off, ty in ((32, 'i8'), (33, 'i8'), (36, 'i32')):
            c = B.AND(c, g.cmp('eq', F.ld(x, off, ty), F.ld(y, off, ty)))
        return c
    if k.startswith('el'):
        putb(r, F, 'equality', 'elements ' + k, t, el(a, b))
        return
    q = A(64, ('qv', 0))
    x, y = padd(F.ld(a), pmul(q, K(64, 40))), padd(F.ld(b), pmul(q, K(64, 40)))
    na, nb = vecsize(F, a, 40), vecsize(F, b, 40)
    same = B.AND(g.cmp('eq', na, nb), B.NOT(F.EX(na, B.NOT(el(x, y)))))
    stride = g.cmp('eq', F.ld(a, 24, 'i32'), F.ld(b, 24, 'i32'))
    putb(r, F, 'equality', 'formats ' + k, t, same, under=stride)
    putb(r, F, 'equality', 'formats %s only with equal elements' % k, t, B.AND(t, same))


def accessors(r, one):
    F = one('stride')
    putt(r, F, 'accessor', 'stride', F.ret(), F.ld(F.arg(0), 24, 'i32'))
    F = one('size')
    putt(r, F, 'accessor', 'size', F.ret(), vecsize(F, F.arg(0), 40))
    F = one('empty')
    putb(r, F, 'accessor', 'empty', F.g.asbool(F.ret()), F.g.cmp('eq', F.ld(F.arg(0)), F.ld(F.arg(0), 8)))
    for k in ('clear', 'format'):
        F = one(k)
        st = F.final(padd(F.arg(0), K(64, 24)), 'i32')
        putt(r, F, 'clear', k + ' stride', st, K(32, 0))
        if k == 'clear':
            cl = [(i, c) for i, c in F.calls() if F.g.args(i)[0] == F.arg(0) and MUT.match(i.get('dem', ''))]
            if any(MUT.match(i['dem']).group(1) == 'clear' and c == 1 for i, c in cl):
                r.ok('clear', 'elements', '', F.where())
            elif not cl and not F.stores() or all(pconst(padd(F.g.term(i.ops[1], None), F.arg(0), -1)) == 24 for i, c in F.stores()) and not cl:
                r.bad('clear', 'elements', 'the elements are kept', F.where())
            else:
                r.und('clear', 'elements', '', F.where())


# ------------------------------------------------------------------ C11
def c11(ws, r):
    m = module(ws, [('s|expand', 'vfw_expand', {})])
    F = Fn(m, 's|expand')
    g = F.g
    nan = float('nan')
    vals = [-2.0, -1.0, 1.0, 2.0, 3.0, nan]
    for k in range(4):
        v = FA(('ld', 'double', padd(F.arg(0), K(64, 8*k))))
        for arg, nm, f in ((1, 'minimum', min), (2, 'maximum', max)):
            old = FA(('ld', 'double', padd(F.arg(arg), K(64, 8*k))))
            inst = '%s %s' % (nm, 'xyzw'[k])
            t = F.final(padd(F.arg(arg), K(64, 8*k)), 'double')
            d = selection(F, t, v, old, vals, f)
            r.put(d[0], 'expand', inst, d[1], F.where())
    for i, c in F.stores():
        b, o = g.abase(i.ops[1])
        if b not in (('arg', 1), ('arg', 2)):
            r.put('violation' if b == ('arg', 0) else 'undecided', 'expand-only-bounds', str(b), 'writes another object', i.where())
        elif o is not None and not (0 <= o and o + i.get('ssz', 8) <= 32):
            r.bad('expand-only-bounds', 'offset %d' % o, 'writes outside of the components', i.where())
    initial(ws, r)
    r.need('expand', 8)
    r.need('initial', 8)


def selection(F, t, v, old, vals, f):
    """The term compares and selects only; then its value depends on how v and old compare, and every
    such case is evaluated.  Other components must not occur."""
    B = F.B
    leaves = {old: 'o', v: 'v'}
    alts = t[1] if t[0] == 'ite' else ((1, t),)
    atoms = {B.atoms[x] for c, _ in alts for x in B.support(c)}
    used = set()
    for a in atoms:
        if a[0] not in ('flt', 'fgt', 'feq'):
            return 'undecided', 'condition %s' % show(a, B)[:80]
        used |= {a[1], a[2]}
    used |= {x for _, x in alts}
    other = [x for x in used if x not in leaves]
    for x in other:
        at = [y for y in subterms(x) if y and y[0] == 'ld']
        if x[0] != 'f' or any(y[0] not in ('ld', 'p', 'f', 'arg') for y in subterms(x) if y and isinstance(y[0], str)):
            return 'undecided', 'value %s' % show(x, B)[:80]
        leaves[x] = len(leaves)
    names = list(leaves)
    n = 0
    for pick in itertools.product(vals, repeat=len(names)) if len(names) <= 4 else ():
        e = dict(zip(names, pick))
        if e[old] != e[old]:
            continue
        n += 1

        def holds(a):
            x, y = e[a[1]], e[a[2]]
            return {'flt': x < y, 'fgt': x > y, 'feq': x == y}[a[0]]
        res = None
        for c, x in alts:
            y = c
            while y > 1:
                va, lo, hi = B.nodes[y]
                y = hi if holds(B.atoms[va]) else lo
            if y == 1:
                res = e[x]
                break
        if res is None:
            return 'undecided', 'no value'
        want = e[old] if e[v] != e[v] else f(e[old], e[v])
        if res != want:
            return 'violation', 'old bound %s expanded by %s%s gives %s' % (
                e[old], e[v], '' if not other else ' (depends on %s)' % show(other[0], B), res)
    if n == 0:
        return 'undecided', 'too many values'
    return 'ok', '%d orderings of the operands' % n


def initial(ws, r):
    inits = [f['name'] for f in Module(ws.ir(lib_srcs(ws), spec=[], keep=[], inline=[], roots=[],
                                             emit=['_GLOBAL__sub_I_'])).d['functions'] if f['name'].startswith('_GLOBAL__sub_I_')]
    m = module(ws, [('i|' + n, n, {}) for n in inits])
    big = Fr(1.7976931348623157e308)
    for nm, want in (('initialBoundsMin', big), ('initialBoundsMax', -big)):
        got = {}
        wh = 'lib/src/VertexValue.cpp'
        for n in inits:
            F = Fn(m, 'i|' + n)
            for i, c in F.stores():
                b, o = F.g.abase(i.ops[1])
                if b and b[0] == 'glob' and nm in b[1] and o is not None and i.get('sty') == 'double':
                    a = F.g.term(i.ops[1], F.g.loop_of[i.bb])
                    x = F.final(a, 'double') if a[0] == 'p' else None
                    got[o//8] = fconst(x) if x is not None and x[0] == 'f' else None
                    wh = i.where()
        if not got:
            for gn in m.globals:
                if nm in gn:
                    b = global_bytes(m, gn, 0, 32)
                    if b:
                        import struct
                        x = struct.unpack('<4d', b)
                        got = {k: (Fr(y) if math.isfinite(y) else y) for k, y in enumerate(x)}
        for k in range(4):
            inst = '%s %s' % (nm, 'xyzw'[k])
            x = got.get(k)
            if x is None:
                r.und('initial', inst, 'value not found', wh)
            elif x == want or x == (math.inf if want > 0 else -math.inf):
                r.ok('initial', inst, '%.3g' % float(x), wh)
            else:
                r.bad('initial', inst, 'starts at %s, values beyond it do not become the bound' % float(x), wh)


# ------------------------------------------------------------------ C12
def c12(ws, r):
    d = ws.ir(lib_srcs(ws), spec=[], keep=[r'.'], inline=[], roots=[], unroll=0, post='function(sroa,early-cse,simplifycfg)',
              emit=['.'])
    m = Module(d)
    hw = {}
    for f in m.funcs.values():
        for i in f.calls():
            if 'x86.vcvt' in i.get('intr', '') or re.search(r'x86\.(f16c|avx512.*(ph|half))', i.get('intr', '')):
                hw.setdefault(f.name, i)
        if '+f16c' in f.d.get('features', ''):
            hw.setdefault(f.name, None)
    if not hw:
        r.und('guarded', 'instructions', 'no hardware half-float conversions found')
        return
    r.count('functions that contain hardware conversions', len(hw))
    flags = capability(ws, r)
    # call sites of such functions
    todo, seen = list(hw), set()
    for n in list(hw):
        f = m.funcs[n]
        if '+f16c' not in f.d.get('features', '') and hw[n] is not None:
            guard_site(r, m, f, hw[n], flags, 'instruction in %s' % short(f.dem))
    for f in m.funcs.values():
        for i in f.calls():
            cal = i.get('callee')
            if cal not in hw or f.name in hw:
                continue
            guard_site(r, m, f, i, flags, '%s calls %s' % (short(f.dem), short(m.funcs[cal].dem)))
        if f.name in hw:
            continue
        for i in f.all():
            for o in i.d.get('ops', []) + i.d.get('args', []):
                if o[0] == 'fn' and o[1] in hw and i.get('callee') != o[1]:
                    r.und('guarded', 'address of %s taken in %s' % (short(m.funcs[o[1]].dem), short(f.dem)), '', i.where())
    r.need('guarded', 2)
    r.need('flag', 1)


def short(d):
    return d.split('(')[0].replace('vfc::(anonymous namespace)::', '').replace('vfc::', '')


def guard_site(r, m, f, i, flags, inst):
    g = GFun(m, f)
    c = g.full(i.bb)
    B = g.B
    r.count('call sites')
    for v in B.support(c):
        a = B.atoms[v]
        gl = {x[1] for x in subterms(a) if x[0] == 'glob'}
        for val in (0, 1):
            if B.restrict(c, v, val) == 0 and gl & set(flags):
                # the site is unreachable for this value of the comparison with the flag
                want = flag_true(a, val)
                if want is True:
                    r.ok('guarded', inst, 'only if %s' % sorted(gl)[0], i.where())
                    return
                if want is False:
                    r.bad('guarded', inst, 'reached when the processor does NOT report support', i.where())
                    return
    ok = not any(x and x[0] in ('call', 'hphi', 'opq', 'ldv') for v in B.support(c) for x in subterms(B.atoms[v]))
    if ok:
        r.bad('guarded', inst, 'reached without asking for hardware support', i.where())
    else:
        r.und('guarded', inst, 'condition not understood', i.where())


def flag_true(a, val):
    """The atom having value `val` makes the site unreachable; True when the other value means flag != 0."""
    if a[0] == 'ltc' and a[2] == 1:          # flag < 1, that is flag == 0
        return val == 1
    if a[0] == 'bool':
        return val == 0
    if a[0] == 'trunc':
        return val == 0
    return None


def capability(ws, r):
    """Globals that hold the processor's report, checked against the CPUID definition."""
    inits = [f['name'] for f in Module(ws.ir(lib_srcs(ws), spec=[], keep=[], inline=[], roots=[],
                                             emit=['_GLOBAL__sub_I_'])).d['functions'] if f['name'].startswith('_GLOBAL__sub_I_')]
    m = module(ws, [('i|' + n, n, {}) for n in inits], keep=['__get_cpuid'])
    flags = {}
    for n in inits:
        F = Fn(m, 'i|' + n)
        g, B = F.g, F.B
        cp = [(i, c) for i, c in F.calls() if i.get('dem', '').startswith('__get_cpuid')]
        if not cp:
            continue
        for i, c in F.stores():
            b, o = g.abase(i.ops[1])
            if not b or b[0] != 'glob':
                continue
            t = g.term(i.ops[0], g.loop_of[i.bb])
            call = cp[-1][0]
            a = g.args(call)
            cnt = '__get_cpuid_count' in call['dem']
            leaf = pconst(a[0]) if a[0][0] == 'p' else None
            regs = dict(zip(['eax', 'ebx', 'ecx', 'edx'], a[2 if cnt else 1:]))
            flags[b[1]] = F
            cond = g.asbool(t) if t[0] in ('b', 'ite') and g.asbool(t) is not None else None
            if t[0] == 'ite':
                cond = 0
                for cc, x in t[1]:
                    k = pconst(x) if x[0] == 'p' else None
                    if k is None:
                        cond = None
                        break
                    if k:
                        cond = B.OR(cond, cc)
            if cond is None:
                r.und('flag', b[1], 'value not understood', i.where())
                continue
            bit = None
            for v in B.support(cond):
                at = B.atoms[v]
                x = atom_of(at[1]) if at[0] == 'ltc' and at[2] == 1 else None
                if x is not None and x[0] == 'and':
                    msk = [pconst(y) for y in x[1:] if y[0] == 'p' and pconst(y) is not None]
                    src = [y for y in x[1:] if pconst(y) is None]
                    ad = [z[2] for y in src for z in [atom_of(y)] if z and z[0] in ('ld', 'ldv')]
                    reg = [k for k, p in regs.items() if ad and p == ad[0]]
                    if msk and reg:
                        bit = (reg[0], msk[0], B.restrict(cond, v, 0) != 0 and B.restrict(cond, v, 1) == 0)
            if bit is None or leaf is None:
                r.und('flag', b[1], 'the tested bit was not recognised', i.where())
            elif (leaf, bit) == (1, ('ecx', 1 << 29, True)):
                r.ok('flag', b[1], 'CPUID leaf 1, ECX bit 29', i.where())
            elif bit[1] & (1 << 29) == 0 or bit[0] != 'ecx' or leaf != 1 or not bit[2] or bit[1] != 1 << 29:
                r.bad('flag', b[1], 'tests %s bits 0x%x of CPUID leaf %d%s' % (
                    bit[0], bit[1], leaf, '' if bit[2] else ' negated'), i.where())
            # all registers start defined: a failing query leaves them alone
            if bit and bit[0] in regs:
                x = g.value_before(regs[bit[0]], 'i32', call, g.loop_of[call.bb])
                if x == ('undef',):
                    r.bad('flag', b[1] + ' default', 'undefined when CPUID is not available', call.where())
                elif x[0] == 'p' and pconst(x) is not None and pconst(x) & (1 << 29):
                    r.bad('flag', b[1] + ' default', 'support is assumed when CPUID is not available', call.where())
                else:
                    r.put('ok' if pconst(x) is not None else 'undecided', 'flag', b[1] + ' default', '', call.where())
    return flags


# ------------------------------------------------------------------ C05
def c05(ws, r):
    T = enums(ws)['ElementType']
    inner = r'^vfc::VertexValue::toData\(void\*, vfc::ElementLayout, vfc::ElementType\) const'
    m = module(ws, [('t|%s' % t, SIGS['bounded'], {3: v}) for t, v in T.items()], keep=[inner])
    rx = re.compile(inner)
    for t, v in T.items():
        F = Fn(m, 't|' + t, pure=[lambda d: bool(rx.match(d))])
        g, B = F.g, F.B
        r.count('specialised functions')
        calls = [(i, c) for i, c in F.calls() if rx.match(i.get('dem', ''))]
        tot = 0
        for i, c in calls:
            if B.AND(tot, c) != 0:
                r.und('delegates', t, 'several writes', i.where())
            tot = B.OR(tot, c)
        if tot != 1:
            r.und('delegates', t, 'not always written by toData()', F.where())
            if not calls:
                continue
        putb_ret(r, F, t, calls)
        for i, c in calls:
            a = g.args(i)
            for k, nm in ((1, 'data'), (2, 'layout')):
                w = F.arg(k) if k == 1 else F.arg(2, 8)
                putt(r, F, 'delegates', '%s %s' % (t, nm), a[k], w, under=c, where=i.where())
            tv = pconst(a[3]) if a[3][0] == 'p' else None
            r.put('undecided' if tv is None else 'ok' if tv == v & 255 else 'violation', 'delegates', t + ' type',
                  '' if tv == v & 255 else 'written as type %s' % tv, i.where())
            for k in range(4):
                x = g.value_before(padd(a[0], K(64, 8*k)), 'double', i, g.loop_of[i.bb])
                s, d = bounded(F, x, k, t)
                r.put(s, 'relative-value', '%s %s' % (t, 'xyzw'[k]), d, i.where())
    r.need('relative-value', 20)


def putb_ret(r, F, t, calls):
    g, B = F.g, F.B
    x = F.ret()
    spec = g.mkite([(c, g.term(['v', i.id], g.loop_of[i.bb])) for i, c in calls])
    s, d = F.c.teq(x, spec) if x is not None else ('undecided', '')
    r.put(s, 'delegates', t + ' result', d, F.where())


def bounded(F, x, k, typ):
    """x is the component handed on; v, lo and hi are the component and its bounds."""
    g, B = F.g, F.B
    at = lambda i: ('ld', 'double', padd(F.arg(i), K(64, 8*k)))
    V, LO, HI = at(0), at(4), at(5)
    if typ not in ('UNorm', 'SNorm'):
        s, d = F.c.teq(x, FA(V))
        return s, d
    u = F.c.unknown(x)
    if u:
        return 'undecided', u
    eps = Fr(1, 2**52)
    top, bot = Fr(1), Fr(0) if typ == 'UNorm' else Fr(-1)
    others = []
    for vals in ((1, 0, 2), (0, 0, 0), (Fr(5, 2), Fr(-1), Fr(3))):
        o = {}
        for j in range(4):
            if j != k:
                for i, y in zip((0, 4, 5), vals):
                    o[('ld', 'double', padd(F.arg(i), K(64, 8*j)))] = Fr(y)
        others.append(o)
    for ranges, coincide in (([eps*2, Fr(1, 10**9), Fr(1, 1000), Fr(1), Fr(300)], False), ([Fr(0)], True)):
        for rg in ranges:
            for lo in (Fr(0), Fr(-3), Fr(5, 2)):
                for n, fr in enumerate((Fr(0), Fr(1, 3), Fr(1, 2), Fr(3, 4), Fr(1), Fr(-1, 2), Fr(-2), Fr(3, 2), Fr(3))):
                    if coincide and n:
                        break
                    for o in others:
                        e = FEnv(dict(o), g)
                        e.v.update({V: lo + fr*rg, LO: lo, HI: lo + rg})
                        y = e.value(F, x)
                        if y is None:
                            return 'undecided', 'value not evaluable'
                        if y in ('undef', 'div0'):
                            return 'violation', 'undefined for value %s in [%s, %s]' % (float(lo + fr*rg), float(lo), float(lo + rg))
                        if coincide:
                            if not (0 <= y <= 1 if typ == 'UNorm' else -1 <= y <= 1):
                                return 'violation', 'stores %s, which is out of range, for coinciding bounds' % float(y)
                            continue
                        want = fr if typ == 'UNorm' else 2*fr - 1
                        if max(bot, min(top, y)) != max(bot, min(top, want)):
                            return 'violation', 'value %.9g in [%.9g, %.9g] is stored as %.9g instead of %.9g%s' % (
                                float(lo + fr*rg), float(lo), float(lo + rg), float(y), float(want),
                                '' if o is others[0] else ' (other components have other bounds)')
    # in between only these cases may occur: shown by the form of the term
    return exact_form(F, x, FA(V), FA(LO), FA(HI), typ)


def exact_form(F, x, v, lo, hi, typ):
    g, B = F.g, F.B
    rng = g.farith('fsub', hi, lo)
    neg = g.farith('fsub', lo, hi)
    val = g.farith('fdiv', g.farith('fsub', v, lo), rng)
    if typ == 'SNorm':
        val = g.farith('fsub', g.farith('fmul', val, FK(2)), FK(1))
    for c, y in (x[1] if x[0] == 'ite' else ((1, x),)):
        for a in B.support(c):
            z = B.atoms[a]
            if z[0] not in ('flt', 'fgt', 'feq') or not all(w in (rng, neg) or fconst(w) is not None or w in (lo, hi) for w in z[1:]):
                return 'ok', 'all sampled cases; depends on %s' % show(z, B)[:60]
        k = fconst(y)
        if y != val and k is None:
            return 'ok', 'all sampled cases'
    return 'ok', '(value-min)/(max-min) in every case but coinciding bounds'


class FEnv:
    """Exact evaluation of a term over rationals; None when something else is needed."""

    def __init__(self, vals, g):
        self.v, self.g = vals, g

    def value(self, F, t):
        try:
            return self.ev(t)
        except ZeroDivisionError:
            return 'div0'
        except KeyError:
            return None

    def ev(self, t):
        B = self.g.B
        if t[0] == 'f':
            r = Fr(0)
            for m, c in t[1]:
                for a in m:
                    c = c*self.at(a)
                r += c
            return r
        if t[0] == 'ite':
            for c, x in t[1]:
                while c > 1:
                    v, lo, hi = B.nodes[c]
                    c = hi if self.cond(B.atoms[v]) else lo
                if c == 1:
                    return self.ev(x)
        if t == ('undef',):
            return 'undef'
        raise KeyError(t)

    def at(self, a):
        if a in self.v:
            return self.v[a]
        if a[0] == 'inv':
            return 1/self.ev(a[1])
        if a[0] == 'fabs':
            return abs(self.ev(a[1]))
        raise KeyError(a)

    def cond(self, a):
        if a[0] in ('flt', 'fgt', 'feq'):
            x, y = self.ev(a[1]), self.ev(a[2])
            return {'flt': x < y, 'fgt': x > y, 'feq': x == y}[a[0]]
        raise KeyError(a)
