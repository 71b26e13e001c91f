"""T05, T07 to T11: what the tool does with its arguments, files and results.

A typestate interpretation of main with everything of the tool that it calls inlined.  Operations that may fail split the
state; contents of strings, buffers and streams are followed symbolically."""
import re
from collections import namedtuple
from ..build import AnalysisError
from ..flow import *
from ..ir import Module
from ..lib import *
from ..terms import *
from . import state_checks as sc
from .config_checks import tmodule
from .tool_checks import tool_srcs

Str = namedtuple('Str', 'parts ne lent')           # parts: tuple or None, ne: known not to be empty
Vec = namedtuple('Vec', 'labels last cap lent loops empt')
In = namedtuple('In', 'parts mode opened last pend lost')
Out = namedtuple('Out', 'parts mode opened ok open data site bad', defaults=(0,))
NEW = Vec(frozenset(), None, None, '', frozenset(), 1)
ANY = Vec(None, None, None, '', frozenset(), 0)
UNK = Str(None, 0, 0)

PUREM = [lambda d: re.search(r'::(c?begin|c?end|size|empty|c_str|data|length|operator\[\]|at|back|front|stride)\(', d) is not None,
         lambda d: re.match(r'(ConfigFile::get|vfc::Converter::get(Vertices|Indices|VertexFormat|VertexCount|IndexType|PrimitiveType|'
                            r'PatchPoints)\b|vfc::indexSize|strcmp$|strn?casecmp$|strncmp$|std::operator\|\(|'
                            r'(bool )?std::operator[=!]=<char)', d) is not None]

# the order of reports: a violation on some path wins
WORSE = {'ok': 0, 'undecided': 1, 'violation': 2}


def basestr(cls):
    return cls.startswith('std::__cxx11::basic_string<char')


def vecof(cls):
    m = re.match(r'std::vector<(.*)>$', cls)
    return split_params(m.group(1))[0] if m else None


def sg64(x):
    return x - (1 << 64) if x >> 63 else x


class MainFlow(Flow):
    limit = 300000

    def __init__(self, ws, r, name='main'):
        self.ws, self.r = ws, r
        raw = Module(ws.ir(tool_srcs(ws), **sc.RAW))
        self.raw = raw
        rec = set()
        for f in raw.funcs.values():
            if not sc.in_repo(f):
                continue
            ds = {i['dem'] for i in f.all() if i.op in ('call', 'invoke')}
            if f.dem in ds:
                rec.add(f.dem)
        self.recursive = rec
        self.mkdirs = {f.dem for f in raw.funcs.values() if f.dem in rec and
                       any(i.op in ('call', 'invoke') and i['dem'] in ('mkdir', '_mkdir') for i in f.all())}
        m = tmodule(ws, [('s|main', 'main')], keep=['^std::', '^ConfigFile::', '^vfc::', '^base64::', '^path::', '^resultFile',
                                                    '^printHelp', '^operator'] + ['^' + re.escape(d) for d in rec])
        F = Fn(m, 's|main', pure=PUREM, track_args=True)
        super().__init__(F)
        self.found = {}
        self.sites = {}
        self.files = []
        self.sret = set()
        self.errfn = {}
        self.pushes = {}
        self.imp_why = {}
        self._later = {}

    # ------------------------------------------------------------ notes
    def note(self, rule, inst, status, st, detail='', where=''):
        if status == 'violation' and st is not None and st.bit.get('imp'):
            status, detail = 'undecided', detail + ' (on a path that depends on %s)' % st.bit['imp']
        k = (rule, inst)
        o = self.found.get(k)
        if o is None or WORSE[status] > WORSE[o[0]]:
            self.found[k] = (status, detail, where)

    def fail(self, st, what, i):
        if 'failed' not in st.bit:
            st.bit['failed'] = (what, i.where(), i.id)
        self.sites[(what, i.where(), i.id)] = i
        return st

    # ------------------------------------------------------------ places and contents
    def place(self, t):
        if t[0] != 'p':
            return ('t', t)
        r, off = root_off(t)
        a = patom(r)
        o = sconst(off) if isinstance(off, tuple) else off
        if a is not None and a[0] in ('alloca', 'arg') and o is not None:
            return (a, o)
        return ('t', t)

    def local(self, p):
        return p[0] != 't' and p[0][0] == 'alloca'

    def get(self, p, st, d=None):
        return st.obj.get(p, d)

    def put(self, p, st, v):
        if v is None:
            st.obj.pop(p, None)
        else:
            st.obj[p] = v

    def string(self, t, st):
        """Contents of the string object at an address."""
        p = self.place(t)
        o = st.obj.get(p)
        if isinstance(o, Str):
            return o
        if p[0] == 't':
            a = atom_of(t)
            if a is not None and a[0] == 'call' and qualified(a[1])[1] in ('back', 'operator[]', 'at', 'front'):
                v = st.obj.get(self.place(a[2][0]))
                if isinstance(v, Vec):
                    if v.labels is not None and len(v.labels) == 1:
                        return Str(next(iter(v.labels)), 0, 0)
                    return Str(v.last, 0, 0) if qualified(a[1])[1] == 'back' else UNK
            return Str((('str', t),), 0, 0)
        return UNK

    def text(self, t, st):
        """Contents of a C string."""
        if t[0] == 'ite':
            alts = [x for _, x in t[1] if pconst(x) != 0]
            if len(alts) == 1:
                t = alts[0]
        s = string_of(self.m, t)
        if s is not None:
            return Str(self.lit(s), 1 if s else 0, 0)
        a = atom_of(t)
        if a is not None and a[0] == 'call' and IS_CSTR(a[1]):
            return self.string(a[2][0], st)
        if t[0] == 'p':
            for k, c in t[2]:
                if len(k) == 1 and k[0][0] == 'call' and IS_CSTR(k[0][1]) and c == 1:
                    n = sconst(padd(t, A(64, k[0]), -1))
                    if n is not None and n > 0:
                        x = self.string(k[0][2][0], st)
                        if x.parts is None:
                            return UNK
                        return Str((('rest', x.parts, n),), 0, 0)
        if a is not None and a[0] in ('ld', 'ldv') and self.place(a[2])[0] == 't' or a is not None and a[0] == 'ld':
            return Str((('cstr', t),), 0, 0)
        return UNK

    def lit(self, s):
        s = s.decode('latin-1') if isinstance(s, bytes) else s
        return (('lit', s),) if s else ()

    def cat(self, a, b):
        if a.parts is None or b.parts is None:
            return Str(None, a.ne or b.ne, a.lent)
        x = list(a.parts)
        for y in b.parts:
            if x and x[-1][0] == y[0] == 'lit':
                x[-1] = ('lit', x[-1][1] + y[1])
            else:
                x.append(y)
        if len(x) > 12:
            return Str(None, a.ne or b.ne, a.lent)
        return Str(tuple(x), a.ne or b.ne or any(y[0] in ('lit', 'num') for y in x), a.lent)

    def change(self, p, st, i, what):
        """The object at p is changed or destroyed: what borrowed its memory is left dangling."""
        o = st.obj.get(p)
        if o is not None and isinstance(o, (Str, Vec)) and o.lent and not (isinstance(o, Vec) and o.empt == 1):
            for k in o.lent if isinstance(o.lent, tuple) else (o.lent,):
                st.bit.setdefault('dangling:%s' % k, (what, i.where()))

    # ------------------------------------------------------------ loops
    def over(self, l):
        """Container that a loop goes over completely."""
        if l.trip is None:
            return None
        t = self.canon(l.trip)
        a = atom_of(t)
        if a is None:
            return None
        if a[0] == 'call' and qualified(a[1])[1] in ('size', 'length'):
            return a[2][0]
        if a[0] in ('div', 'sdiv') and a[1][0] == 'p':
            ends = [k[0] for k, c in a[1][2] if len(k) == 1 and k[0][0] == 'call' and qualified(k[0][1])[1] in ('end', 'cend') and c == 1]
            begs = [k[0] for k, c in a[1][2] if len(k) == 1 and k[0][0] == 'call' and qualified(k[0][1])[1] in ('begin', 'cbegin')]
            if len(ends) == len(begs) == 1 and len(a[1][2]) == 2 and ends[0][2] == begs[0][2]:
                return ends[0][2][0]
        return None

    def element(self, t):
        """(container, index, offset) of an address within an element."""
        if t[0] != 'p':
            return None
        for k, c in t[2]:
            if len(k) != 1 or k[0][0] != 'call' or c != 1:
                continue
            n = qualified(k[0][1])[1]
            rest = padd(t, A(64, k[0]), -1)
            if n in ('operator[]', 'at') and sconst(rest) is not None:
                return k[0][2][0], k[0][2][1], sconst(rest)
            if n in ('begin', 'cbegin', 'data'):
                iv = [(kk[0], cc) for kk, cc in rest[2] if len(kk) == 1 and kk[0][0] in ('iv', 'kx')]
                others = [kk for kk, cc in rest[2] if kk and not (len(kk) == 1 and kk[0][0] in ('iv', 'kx'))]
                if len(iv) == 1 and not others:
                    off = sconst(padd(rest, pmul(K(64, iv[0][1]), A(64, iv[0][0])), -1))
                    sz = iv[0][1]
                    if off is not None and 0 <= off < sz:
                        return k[0][2][0], A(64, iv[0][0]), off
        return None

    def which(self, t):
        """Name of the accessor that a container comes from."""
        a = atom_of(t)
        if a is not None and a[0] == 'call':
            return qualified(a[1])[1]
        return None

    def enter(self, l, st):
        st.bit[('once', l.id)] = None
        st.bit[('some', l.id)] = frozenset()
        self.reset(l, st)

    def reset(self, l, st):
        for k in [k for k in st.bit if isinstance(k, tuple) and k[0] == 'n' and k[1] == l.id]:
            del st.bit[k]
        st.bit.pop(('file', l.id), None)

    def event(self, i, st, what):
        l = self.g.loop_of[i.bb]
        while l is not None:
            k = ('n', l.id, what)
            st.bit[k] = min(2, st.bit.get(k, 0) + 1)
            l = l.parent
        if self.g.loop_of[i.bb] is None:
            k = ('n', None, what)
            st.bit[k] = min(2, st.bit.get(k, 0) + 1)

    def across(self, u, v, st):
        out = super().across(u, v, st)
        for s in out:
            if 'failed' in s.bit:
                self.forget(s)
            if v not in self._later:
                self._later[v] = self.later(v)
            for k in [k for k in s.obj if k[0][0] == 'alloca' and k[0][1] not in self._later[v]]:
                del s.obj[k]
        return out

    def later(self, b):
        """Locals that code from a block on uses."""
        r = self.fn.reach(b)
        out = set()
        for x in r:
            for i in self.fn.bb[x]:
                for o in list(i.ops) + list(i.d.get('args', [])) + [i.d.get('base', ['']), i.d.get('target', [''])] + \
                        [y for y, _ in i.d.get('in', [])]:
                    j = self.inst(o) if isinstance(o, list) and o and o[0] == 'v' else None
                    if j is not None:
                        q = self.root(o)
                        out.add(q[1] if q is not None and q[0] == 'alloca' else None)
        for x in list(out):
            pass
        return out

    def forget(self, st):
        """After a failure only what decides about the way out matters."""
        for p, o in list(st.obj.items()):
            if isinstance(o, Str):
                st.obj[p] = Str(() if o.parts == () else o.parts if o.parts == (('result',),) else None, o.ne, 0)
            elif isinstance(o, Vec):
                st.obj[p] = ANY._replace(empt=o.empt)
        for k in list(st.bit):
            if isinstance(k, tuple) and k[0] in ('once', 'some', 'n', 'prefix', 'noidx', 'done', 'read', 'file') or \
                    isinstance(k, str) and k.startswith('dangling'):
                del st.bit[k]

    def stale(self, l, st):
        for k in [k for k in st.bit if isinstance(k, tuple) and (k[0] in ('prefix', 'noidx') and ('iv', l.id) in set(subterms(k)) or k[0] == 'read')]:
            del st.bit[k]

    def repeat(self, l, u, st):
        self.stale(l, st)
        cnt = {k[2]: v for k, v in st.bit.items() if isinstance(k, tuple) and k[0] == 'n' and k[1] == l.id}
        once = frozenset(w for w, n in cnt.items() if n == 1)
        o = st.bit.get(('once', l.id))
        st.bit[('once', l.id)] = once if o is None else o & once
        st.bit[('some', l.id)] = st.bit.get(('some', l.id), frozenset()) | frozenset(cnt)
        self.reset(l, st)

    def leave(self, l, edge, st):
        if l.parent is None:
            self.stale(l, st)
        o, s = st.bit.pop(('once', l.id), None), st.bit.pop(('some', l.id), frozenset())
        partial = {k[2] for k in st.bit if isinstance(k, tuple) and k[0] == 'n' and k[1] == l.id}
        self.reset(l, st)
        V = self.over(l)
        n = self.which(V) if V is not None else None
        if n is None and 'failed' not in st.bit:
            for x in ('addVertexStream', 'setElementTransform'):
                if self.calls_in(l, x):
                    st.bit[('left', x)] = 1
        if n is None or 'failed' in st.bit:
            return
        early = edge != l.trip_edge
        once = frozenset(['*']) if o is None and not early else frozenset(o or ())
        bad = (s | partial) - (o or frozenset()) if not early else (s | partial | frozenset(['*']))
        if l.parent is not None:
            x = self.element(V)
            if x is not None and 'bounds' in once | bad and self.which(x[0]) == 'getVertexFormat' and self.counter(x[1]) and \
                    x[1] != A(64, ('iv', l.parent.id)):
                st.bit['bounds of'] = 'the loop over the elements goes over those of stream %s' % show(x[1])
            if x is not None and not early and ('bounds' in once or '*' in once and 'bounds' not in bad):
                kk = ('n', l.parent.id, 'all bounds')
                st.bit[kk] = min(2, st.bit.get(kk, 0) + 1)
            elif x is not None:
                kk = ('n', l.parent.id, 'all bounds')
                st.bit.pop(kk, None)
        k = ('done', n)
        a, b, e = st.bit.get(k, (frozenset(), frozenset(), 0))
        st.bit[k] = (a | once, b | bad, e or int(early))

    # ------------------------------------------------------------ values
    def returns_self(self, i):
        c, n, _ = self.q(i)
        return n in ('operator<<', 'write', 'read', 'put', 'flush', 'endl', 'get', 'getline', 'ignore', 'seekg', 'operator>>')

    def call_nonnull(self, i):
        return self.q(i)[1] in ('c_str', 'operator[]', 'back', 'front', 'getVertices', 'getIndices', 'getVertexFormat')

    def stdio(self, o):
        """Which standard stream a FILE operand is."""
        i = self.inst(o)
        if i is not None and i.op == 'load' and i.ops[0][0] == 'g' and i.ops[0][1] in ('stdout', 'stderr', 'stdin'):
            return i.ops[0][1]
        return None

    def load(self, i, st):
        j = self.inst(i.ops[0])
        if j is not None and j.op in ('call', 'invoke') and j['dem'] == '__errno_location':
            return st.bit.get('errno')
        return None

    def leaf(self, i, val, st):
        """What a condition tells."""
        f = self.cond_term(i)
        if f is None:
            return [st]
        why = None
        for v in self.B.support(f):
            a = self.B.atoms[v]
            w = self.opaque(a)
            if w:
                why = why or w
        if why and not st.bit.get('imp'):
            st.bit['imp'] = why
        if not self.no_index(f, val, st):
            return []
        # facts: does the text start with the prefix?
        sup = self.B.support(f)
        if len(sup) == 1:
            a = self.B.atoms[next(iter(sup))]
            pol = 1 if f == self.B.var(a) else 0
            x = None
            if a[0] == 'ltc' and a[2] == 1 or a[0] == 'eq' and a[2] == 0:
                x = atom_of(a[1])
            if x is not None and x[0] == 'call' and len(x[2]) == 1 and qualified(x[1])[1] in ('size', 'length'):
                # compared with 0
                q = self.place(x[2][0])
                o = st.obj.get(q)
                if isinstance(o, Vec):
                    e = 1 if val == pol else 2
                    if o.empt and o.empt != e:
                        return []
                    st.obj[q] = o._replace(empt=e)
                elif isinstance(o, Str):
                    return self.set_empty(x[2][0], val == pol, st)
            if x is not None and x[0] == 'call' and x[1] in ('strncasecmp', 'strncmp', '_strnicmp'):
                self.prefix(x, val == pol, st, i)
            c = a if a[0] == 'call' else a[1] if a[0] == 'bool' else ('',)
            if c[0] == 'call' and re.search(r'std::operator[=!]=<char', c[1]):
                y = c[2]
                eq = (val == pol) == ('operator==' in c[1])
                for p, q in ((y[0], y[1]), (y[1], y[0])):
                    if string_of(self.m, q) in (b'', '') and isinstance(st.obj.get(self.place(p)), Str):
                        return self.set_empty(p, eq, st)
        return [st]

    def no_index(self, f, val, st):
        """Is the index type of the stream NoIndices?"""
        sup = self.B.support(f)
        if len(sup) != 1:
            return True
        a = self.B.atoms[next(iter(sup))]
        pol = 1 if f == self.B.var(a) else 0
        if a[0] == 'eq' and a[2] == 0 or a[0] == 'ltc' and a[2] == 1:
            x = atom_of(a[1])
            if x is not None and x[0] in ('ld', 'ldv') and self.element(x[2]) is not None and self.element(x[2])[2] == 32 and \
                    self.which(self.element(x[2])[0]) == 'getVertexStreams':
                k = ('noidx', a[1])
                if st.bit.get(k, val == pol) != (val == pol):
                    return False
                st.bit[k] = val == pol
        return True

    def set_empty(self, t, eq, st):
        p = self.place(t)
        o = st.obj[p]
        if o.parts == ():
            return [st] if eq else []
        if o.ne:
            return [] if eq else [st]
        st.obj[p] = o._replace(parts=(), ne=0) if eq else o._replace(ne=1)
        return [st]

    def prefix(self, x, eq, st, i):
        a, b, n = x[2][0], x[2][1], x[2][2]
        s = string_of(self.m, b)
        if s is None:
            a, b = b, a
            s = string_of(self.m, b)
        c = atom_of(a)
        if s is None or c is None or c[0] != 'call' or not IS_CSTR(c[1]):
            return
        s = s.decode('latin-1') if isinstance(s, bytes) else s
        st.bit[('prefix', c[2][0])] = (eq, s, sconst(n), x[1])

    def cond_term(self, i):
        if i['ty'] != 'i1':
            return None
        t = self.term(['v', i.id], i)
        return self.g.asbool(t) if t[0] in ('b', 'p', 'ite') else None

    def opaque(self, a):
        """Description of what an unknown condition depends on if the analysis does not follow it."""
        loops = False
        for x in subterms(a):
            if not isinstance(x, tuple) or not x:
                continue
            if x[0] in ('ld', 'ldv'):
                p = self.place(x[2])
                if self.local(p):
                    return 'the local at %s' % show(x[2])[:40]
            if x[0] in ('phi', 'undef', 'exitv', 'ev', 'opq'):
                return 'a value that is not followed'
            if x[0] == 'call' and len(x) > 3 and not self.followed(x[1]):
                return 'the result of %s' % x[1][:60]
        return None

    def followed(self, d):
        c, n, _ = qualified(d)
        return n in ('strcmp', 'strcasecmp', 'strncasecmp', 'strncmp', 'empty', 'size', 'length', 'is_open', 'good', 'bad', 'fail', 'eof',
                     'operator!', 'operator bool', 'gcount', 'printf', 'fprintf', 'fputs', 'fflush', 'puts', 'operator==', 'operator!=',
                     'mkdir', 'fwrite', 'begin', 'end', 'stride', 'ferror') or c.startswith(('vfc::', 'ConfigFile'))

    # ------------------------------------------------------------ calls
    def split(self, st, i, ok, bad, what, rep=0, more=()):
        """Success gives value ok, failure the value bad."""
        s2 = st.copy()
        if ok is not None:
            st.env[i.id] = ok
        if bad is not None:
            s2.env[i.id] = bad
        self.fail(s2, what, i)
        if rep:
            s2.bit['rep'] = 1
        return [st, s2]

    def call(self, i, st):
        c, n, p = self.q(i)
        d = i['dem']
        a = self.args(i)
        if d in self.mkdirs:
            self.directory(i, st, a)
            return self.split(st, i, 1, 0, 'creating the output directory')
        if d in self.recursive:
            st.bit['imp'] = st.bit.get('imp') or 'the recursive function %s' % d[:60]
            return [st]
        if not c:
            h = getattr(self, 'c_' + n, None)
            if h:
                return h(i, st, a)
            if n == 'printHelp':
                st.bit['help'] = 1
                return [st]
            if n == 'resultFile':
                return self.result_file(i, st, a)
            return self.other(i, st, a)
        if c == 'base64':
            return self.base64(i, st, a, n)
        if c == 'path':
            return self.path(i, st, a, n)
        if c == 'ConfigFile':
            return self.config(i, st, a, n, p)
        if c == 'vfc::Converter':
            return self.converter(i, st, a, n, p)
        if c == 'vfc::VertexFormat':
            if n == 'VertexFormat' and len(a) == 2:
                self.put(self.place(a[0]), st, ('copy', a[1]))
            return [st]
        if basestr(c):
            return self.str_method(i, st, a, n, p)
        if vecof(c) is not None:
            return self.vec_method(i, st, a, n, p, vecof(c))
        if c.startswith('std::function<'):
            return self.function(i, st, a, n, p)
        if c.startswith(('std::basic_ifstream', 'std::basic_ofstream', 'std::basic_ios', 'std::istream', 'std::ostream',
                         'std::basic_istream', 'std::basic_ostream', 'std::basic_fstream', 'std::ios')):
            return self.stream(i, st, a, c, n, p)
        if c == 'std' or c == 'std::__cxx11':
            return self.std(i, st, a, n, p)
        if c.startswith(('std::allocator', 'std::__new_allocator', 'std::_Function_base', 'vfc')):
            return [st]
        return self.other(i, st, a)

    def other(self, i, st, a):
        """Unknown function: what it gets may change."""
        d = i['dem']
        if d.startswith('llvm.') or d in ('strlen', 'memcpy', 'memcmp', 'memmove', 'memset', 'strcmp', 'strcasecmp', 'strncasecmp',
                                          'strncmp', '__errno_location', 'operator delete', 'operator new'):
            return [st]
        for x in a:
            p = self.place(x)
            o = st.obj.get(p)
            if isinstance(o, Str):
                st.obj[p] = UNK
            elif isinstance(o, Vec):
                st.obj[p] = ANY
        return [st]

    # ---- C library
    def message(self, i, st):
        st.bit['rep'] = 1
        return [st]

    def shown(self, i, st, parts):
        """Text for standard output."""
        out = []
        if parts is not None and any(x[0] == 'result' for x in parts):
            rest = ''.join(x[1] if x[0] == 'lit' else '?' for x in parts if x[0] != 'result')
            k = sum(1 for x in parts if x[0] == 'result')
            ok = k == 1 and not rest.strip()
            self.note('T05:result', 'text', 'ok' if ok else 'violation', st, 'the result is printed %s' %
                      ('%d times' % k if k > 1 else 'with other text: %r' % rest), i.where())
            if 'failed' in st.bit:
                self.note('T05:result', st.bit['failed'][0] + ' at ' + st.bit['failed'][1], 'violation', st,
                          'the result is printed although this failed', i.where())
            if st.bit.get('shown'):
                self.note('T05:result', 'text', 'violation', st, 'the result is printed twice', i.where())
            st.bit['shown'] = 1
        elif parts is None:
            st.bit['shownu'] = 1
        else:
            st.bit['help'] = 1
            if all(x[0] == 'lit' for x in parts) and not ''.join(x[1] for x in parts).strip() and st.bit.get('shown'):
                del st.bit['help']
        st.bit['dirty'] = 1
        return st

    def format(self, t, args, st):
        f = string_of(self.m, t)
        if f is None:
            x = self.text(t, st)
            if x.parts is not None and any(y[0] == 'result' for y in x.parts):
                return x.parts, True
            return None, False
        f = f.decode('latin-1') if isinstance(f, bytes) else f
        cur, k, args = Str((), 0, 0), 0, list(args)
        for s in re.findall(r'%%|%[^a-zA-Z%]*[a-zA-Z]|[^%]+', f):
            if s == '%s' and args:
                cur = self.cat(cur, self.text(args.pop(0), st))
            elif s.startswith('%') and s != '%%':
                if args:
                    args.pop(0)
                cur = self.cat(cur, UNK)
            else:
                cur = self.cat(cur, Str(self.lit('%' if s == '%%' else s), 1, 0))
        return cur.parts, False

    def output(self, i, st, parts, ok, bad):
        st = self.shown(i, st, parts)
        if st.bit.get('shown') and parts is not None or parts is None:
            return self.split(st, i, ok, bad, 'printing the result')
        return [st]

    def c_printf(self, i, st, a):
        parts, asformat = self.format(a[0], a[1:], st)
        if asformat:
            self.note('T05:result', 'format', 'violation', st, 'the result is used as format', i.where())
        return self.output(i, st, parts, 1, (1 << 32) - 1)

    def c_puts(self, i, st, a):
        x = self.text(a[0], st)
        return self.output(i, st, x.parts, 1, (1 << 32) - 1)

    def c_putchar(self, i, st, a):
        k = sconst(a[0])
        return self.output(i, st, (('lit', chr(k)),) if k is not None else None, 10 if k is None else k, (1 << 32) - 1)

    def c_fprintf(self, i, st, a):
        f = self.stdio(i['args'][0])
        if f == 'stderr':
            return self.message(i, st)
        if f == 'stdout':
            parts, asformat = self.format(a[1], a[2:], st)
            return self.output(i, st, parts, 1, (1 << 32) - 1)
        st.bit['imp'] = st.bit.get('imp') or 'a file'
        return [st]

    def c_fputs(self, i, st, a):
        f = self.stdio(i['args'][1])
        if f == 'stderr':
            return self.message(i, st)
        if f == 'stdout':
            return self.output(i, st, self.text(a[0], st).parts, 1, (1 << 32) - 1)
        st.bit['imp'] = st.bit.get('imp') or 'a file'
        return [st]

    def c_fputc(self, i, st, a):
        f = self.stdio(i['args'][1])
        if f == 'stderr':
            return [st]
        if f == 'stdout':
            return self.c_putchar(i, st, a)
        return [st]

    c_putc = c_fputc

    def c_fwrite(self, i, st, a):
        f = self.stdio(i['args'][3])
        if f == 'stderr':
            return self.message(i, st)
        if f == 'stdout':
            x = self.text(a[0], st)
            sts = self.output(i, st, x.parts, None, None)
            if len(sts) == 2:
                sts[1].env[i.id] = 0
                sts[0].env[i.id] = 'nz'
            return sts
        st.bit['imp'] = st.bit.get('imp') or 'a file'
        return [st]

    def c_perror(self, i, st, a):
        return self.message(i, st)

    def c_fflush(self, i, st, a):
        if self.stdio(i['args'][0]) == 'stdout' or a[0] == K(64, 0):
            if st.bit.pop('dirty', None) and st.bit.get('shown'):
                return self.split(st, i, 0, (1 << 32) - 1, 'flushing the result')
            st.env[i.id] = 0
        return [st]

    def c_fclose(self, i, st, a):
        if self.stdio(i['args'][0]) == 'stdout':
            return self.c_fflush(i, st, a)
        return [st]

    def c_ferror(self, i, st, a):
        if self.stdio(i['args'][0]) == 'stdout':
            f = st.bit.get('failed')
            st.env[i.id] = 1 if f and f[0] in ('printing the result', 'flushing the result') else 0
        return [st]

    def c_mkdir(self, i, st, a):
        self.directory(i, st, a)
        s2, s3 = st.copy(), st.copy()
        st.env[i.id] = 0
        s2.env[i.id] = s3.env[i.id] = (1 << 32) - 1
        # success leaves errno as it was, e.g. 0
        st.bit['errno'], s2.bit['errno'], s3.bit['errno'] = 0, 17, 13
        self.fail(s3, 'creating a directory', i)
        return [st, s2, s3]

    def c_exit(self, i, st, a):
        self.status(i, self.known(i['args'][0], st), st)
        return []

    c__exit = c__Exit = c_exit

    def c_abort(self, i, st, a):
        return []

    def c___cxa_throw(self, i, st, a):
        return []

    def directory(self, i, st, a):
        """A directory is created: only for the output."""
        st.bit['dir made'] = 1
        out = st.obj.get(self.outdir)
        if out is not None:
            if out.parts == ():
                self.note('T08:only', 'directories', 'violation', st, 'a directory is created without output directory', i.where())
            elif not out.ne:
                self.note('T08:only', 'directories', 'violation', st, 'a directory is created whether or not there is an output '
                          'directory', i.where())
            else:
                self.note('T08:only', 'directories', 'ok', st)

    # ---- strings
    def str_method(self, i, st, a, n, p):
        w = self.place(a[0])
        o = st.obj.get(w)
        ps = split_params(p)
        isstr = lambda k: k < len(ps) and 'basic_string<' in ps[k] and 'initializer' not in ps[k]

        def source(k):
            x = self.string(a[k + 1], st)
            if ps[k].endswith('&&'):
                q = self.place(a[k + 1])
                self.change(q, st, i, 'moved from')
                if isinstance(st.obj.get(q), Str):
                    st.obj[q] = UNK
            return x._replace(lent=0)
        if n == 'basic_string':
            if not ps or ps[0].startswith('std::allocator'):
                v = Str((), 0, 0)
            elif isstr(0) and len(ps) == 1:
                v = source(0)
            elif ps[0] == 'char const*' and (len(ps) == 1 or ps[1].startswith('std::allocator')):
                v = self.text(a[1], st)._replace(lent=0)
            else:
                v = UNK
            if self.local(w):
                self.put(w, st, v)
        elif n.startswith('~'):
            self.change(w, st, i, 'destroyed')
            self.put(w, st, None)
        elif n in ('operator=', 'assign') and len(ps) == 1:
            self.change(w, st, i, 'changed')
            v = source(0) if isstr(0) else self.text(a[1], st)._replace(lent=0) if ps[0] == 'char const*' else UNK
            if self.local(w):
                self.put(w, st, v)
        elif n in ('operator+=', 'append') and len(ps) == 1:
            self.change(w, st, i, 'changed')
            v = source(0) if isstr(0) else self.text(a[1], st) if ps[0] == 'char const*' else None
            if v is None and ps[0] == 'char' and sconst(a[1]) is not None:
                v = Str((('lit', chr(sconst(a[1]) & 255)),), 1, 0)
            if self.local(w):
                self.put(w, st, self.cat(o if isinstance(o, Str) else UNK, v or UNK)._replace(lent=0))
        elif n == 'clear':
            self.change(w, st, i, 'cleared')
            if self.local(w):
                self.put(w, st, Str((), 0, 0))
        elif n in ('empty', 'size', 'length'):
            x = self.string(a[0], st)
            one, zero = (1, 0) if n == 'empty' else (0, 'nz')
            if x.parts == ():
                st.env[i.id] = one
            elif x.ne or (x.parts and any(y[0] in ('lit', 'num') for y in x.parts)):
                st.env[i.id] = zero
            elif isinstance(o, Str):
                s2 = st.copy()
                st.env[i.id], s2.env[i.id] = one, zero
                st.obj[w] = o._replace(parts=())
                s2.obj[w] = o._replace(ne=1)
                return [st, s2]
        elif n == 'swap':
            q = self.place(a[1])
            self.change(w, st, i, 'swapped')
            self.change(q, st, i, 'swapped')
            x, y = self.string(a[0], st), self.string(a[1], st)
            if self.local(w):
                self.put(w, st, y)
            if self.local(q):
                self.put(q, st, x)
        elif n in ('c_str', 'data', 'begin', 'end', 'back', 'front', 'operator[]', 'at', 'find', 'rfind', 'find_last_of', 'compare',
                   'substr', 'capacity', 'find_first_of', 'npos', 'get_allocator') or i['dem'].endswith(' const'):
            if n == 'substr' and len(i['args']) >= 3:
                q = self.place(a[0])
                if self.local(q):
                    self.put(q, st, UNK)
        elif n in ('reserve', 'shrink_to_fit'):
            self.change(w, st, i, 'reallocated')
        else:
            self.change(w, st, i, 'changed')
            if self.local(w):
                self.put(w, st, UNK)
        return [st]

    def std(self, i, st, a, n, p):
        ps = split_params(p)
        if n == 'to_string':
            self.put(self.place(a[0]), st, Str((('num', a[1]),), 1, 0))
        elif n == 'operator+' and len(a) == 3:
            x = []
            for k in (0, 1):
                if 'basic_string<' in ps[k]:
                    x.append(self.string(a[k + 1], st))
                    if ps[k].endswith('&&'):
                        q = self.place(a[k + 1])
                        self.change(q, st, i, 'moved from')
                        if isinstance(st.obj.get(q), Str):
                            st.obj[q] = UNK
                elif ps[k] == 'char const*':
                    x.append(self.text(a[k + 1], st))
                elif ps[k] == 'char' and sconst(a[k + 1]) is not None:
                    x.append(Str((('lit', chr(sconst(a[k + 1]) & 255)),), 1, 0))
                else:
                    x.append(UNK)
            self.put(self.place(a[0]), st, self.cat(x[0], x[1])._replace(lent=0))
        elif n == 'operator<<' or n in ('endl', 'flush'):
            return self.shift(i, st, a, n, ps)
        elif n in ('exit', '_Exit', 'quick_exit'):
            return self.c_exit(i, st, a)
        elif n.startswith('__throw'):
            return []
        elif n in ('swap',) and len(a) == 2:
            x, y = self.place(a[0]), self.place(a[1])
            u, v = st.obj.get(x), st.obj.get(y)
            for w, z in ((x, v), (y, u)):
                if self.local(w):
                    self.put(w, st, z)
        elif not n.startswith('operator'):
            return self.other(i, st, a)
        return [st]

    def shift(self, i, st, a, n, ps):
        """Output to std::cout or std::cerr."""
        r = self.root(i['args'][0])
        if r == ('g', '_ZSt4cerr') or r == ('g', '_ZSt4clog'):
            return self.message(i, st)
        if r == ('g', '_ZSt4cout'):
            if n in ('endl', 'flush') or len(ps) > 1 and '(*)' in ps[1]:
                return self.flush_cout(i, st)
            if len(ps) > 1 and 'basic_string<' in ps[1]:
                x = self.string(a[1], st).parts
            elif len(ps) > 1 and ps[1] == 'char const*':
                x = self.text(a[1], st).parts
            elif len(ps) > 1 and ps[1] == 'char' and sconst(a[1]) is not None:
                x = (('lit', chr(sconst(a[1]) & 255)),)
            else:
                x = None
            sts = self.output(i, st, x, None, None)
            if len(sts) == 2:
                sts[1].bit['coutbad'] = 1
            return sts
        return [st]

    def flush_cout(self, i, st):
        if st.bit.pop('dirty', None) and st.bit.get('shown') and not st.bit.get('coutbad'):
            s2 = st.copy()
            self.fail(s2, 'flushing the result', i)
            s2.bit['coutbad'] = 1
            return [st, s2]
        return [st]

    # ---- std::function: does it report on standard error?
    def function(self, i, st, a, n, p):
        if n == 'function' and len(a) >= 2:
            fn = None
            if '(*&&)' in p or '(*)' in p or '(&)' in p:
                for j in self.fn.bb[i.bb]:
                    if j.op == 'store' and j.ops[0][0] == 'fn' and j.ops[1] == i['args'][1]:
                        fn = j.ops[0][2]
                if i['args'][1][0] == 'fn':
                    fn = i['args'][1][2]
            elif 'std::function' not in p:
                fn = p.rstrip('& ').strip() + '::operator()'
            else:
                self.put(self.place(a[0]), st, st.obj.get(self.place(a[1])))
                return [st]
            self.put(self.place(a[0]), st, ('fn', fn))
        return [st]

    def reports(self, t, st):
        """Whether the error function at an address prints its message to standard error on every path."""
        o = st.obj.get(self.place(t))
        if not (isinstance(o, tuple) and o and o[0] == 'fn') or o[1] is None:
            return None
        if o[1] not in self.errfn:
            self.errfn[o[1]] = None
            raw = self.raw
            fs = [f for f in raw.funcs.values() if f.dem == o[1] or f.dem.startswith(o[1] + '(')]
            if not fs:
                lib = Module(self.ws.ir(lib_srcs(self.ws), **sc.RAW))
                raw = lib
                fs = [f for f in lib.funcs.values() if f.dem == o[1] or f.dem.startswith(o[1] + '(')]
            if len(fs) == 1:
                f = fs[0]
                bs = set()
                for j in f.all():
                    if j.op not in ('call', 'invoke'):
                        continue
                    x = qualified(j['dem'])[1]
                    ptr = None
                    if x in ('fprintf', 'fputs', 'fwrite'):
                        ptr = j['args'][{'fprintf': 0, 'fputs': 1, 'fwrite': 3}[x]]
                        k = f.insts.get(ptr[1]) if ptr[0] == 'v' else None
                        if k is not None and k.op == 'load' and k.ops[0][:2] == ['g', 'stderr']:
                            bs.add(j.bb)
                    if x == 'operator<<' and j['args'] and j['args'][0][:2] in (['g', '_ZSt4cerr'],):
                        bs.add(j.bb)
                    if x == 'perror':
                        bs.add(j.bb)
                ret = [b for b in f.blocks if f.term(b).op == 'ret']
                r = f.reach(f.entry, avoid=bs) if f.entry not in bs else set()
                self.errfn[o[1]] = not any(b in r for b in ret)
        return self.errfn[o[1]]

    # ---- the parts of the tool
    def result_file(self, i, st, a):
        self.check_result_args(i, st, a)
        s2 = st.copy()
        w = self.place(a[0])
        self.put(w, st, Str((('result',),), 1, 0))
        self.put(w, s2, Str((), 0, 0))
        self.fail(s2, 'making the result', i)
        return [st, s2]

    def base64(self, i, st, a, n):
        if n == 'decode':
            w = self.place(a[0])
            x = self.text(a[1], st)
            if x.parts is not None and len(x.parts) == 1 and x.parts[0][0] == 'rest' and len(x.parts[0][1]) == 1 and \
                    x.parts[0][1][0][0] == 'str' and 'failed' not in st.bit:
                self.prefixed(i, st, x.parts[0][1][0][1], True)
            s2 = st.copy()
            v = st.obj.get(w)
            fresh = isinstance(v, Vec) and v.labels == frozenset()
            self.change(w, st, i, 'decoded into')
            self.put(w, st, NEW._replace(labels=frozenset([('dec', x.parts)]) if fresh or True else None, empt=0))
            self.put(w, s2, ANY)
            st.env[i.id], s2.env[i.id] = 1, 0
            self.fail(s2, 'decoding base64 data', i)
            return [st, s2]
        if n == 'encode':
            w = self.place(a[0])
            self.put(w, st, Str((('b64', a[1], a[2]),), 0, 0))
        return [st]

    def path(self, i, st, a, n):
        if n == 'join':
            x, y = self.string(a[1], st), self.string(a[2], st)
            v = Str((('join', x.parts, y.parts),), 0, 0) if x.parts is not None and y.parts is not None else UNK
            self.put(self.place(a[0]), st, v)
        elif n in ('getParentDirectory', 'getFileName'):
            x = self.string(a[1], st)
            self.put(self.place(a[0]), st, Str((('parent' if n == 'getParentDirectory' else 'file', x.parts),), 0, 0)
                     if x.parts is not None else UNK)
        return [st]

    def config(self, i, st, a, n, p):
        w = self.place(a[0])
        if n == 'ConfigFile' and len(a) == 1:
            self.put(w, st, ('cfg', 'new'))
        elif n == 'ConfigFile':
            o = self.place(a[1])
            self.put(w, st, st.obj.get(o))
            if p.endswith('&&'):
                self.put(o, st, ('cfg', 'moved'))
        elif n == '~ConfigFile':
            self.put(w, st, None)
        elif n == 'operator=':
            o = self.place(a[1])
            self.put(w, st, st.obj.get(o))
        elif n == 'load':
            self.event(i, st, 'load')
            rep = self.reports(a[-1], st)
            if rep is None:
                st.bit['imp'] = st.bit.get('imp') or 'an unknown error function'
            self.check_load(i, st, a, p)
            s2 = st.copy()
            self.put(w, st, ('cfg', 'loaded'))
            st.env[i.id], s2.env[i.id] = 1, 0
            self.fail(s2, 'loading the configuration', i)
            if rep:
                s2.bit['rep'] = 1
            return [st, s2]
        elif n.startswith('get'):
            o = st.obj.get(w)
            if o is not None and o != ('cfg', 'loaded') and 'failed' not in st.bit:
                self.note('T05:settings', 'use of the configuration', 'violation', st, '%s() is called on a configuration that is '
                          'not loaded or was released' % n, i.where())
            else:
                self.note('T05:settings', 'use of the configuration', 'ok', st)
        return [st]

    def converter(self, i, st, a, n, p):
        w = self.place(a[0])
        o = st.obj.get(w)
        if n == 'Converter' and len(a) > 2:
            self.check_settings(i, st, a)
            rep = self.reports(a[5], st) if len(a) > 5 else None
            if rep is None:
                st.bit['imp'] = st.bit.get('imp') or 'an unknown error function'
            s2 = st.copy()
            self.put(w, st, ('conv', 1, 'new', rep))
            self.put(w, s2, ('conv', 0, 'new', rep))
            self.fail(s2, 'setting up the converter', i)
            if rep:
                s2.bit['rep'] = 1
            return [st, s2]
        if n == 'Converter' and p.endswith('&&'):
            self.put(w, st, st.obj.get(self.place(a[1])))
            return [st]
        valid, state, rep = (o[1], o[2], o[3]) if isinstance(o, tuple) and o and o[0] == 'conv' else (None, None, None)
        if n in ('operator bool', 'isValid'):
            if valid is not None:
                st.env[i.id] = valid
        elif n == 'addVertexStream':
            self.check_stream(i, st, a, p)
            self.event(i, st, 'addVertexStream')
            s2 = st.copy()
            st.env[i.id], s2.env[i.id] = 1, 0
            self.fail(s2, 'adding a vertex stream', i)
            if rep:
                s2.bit['rep'] = 1
            return [s2] if valid == 0 else [st, s2]
        elif n == 'setElementTransform':
            self.check_transform(i, st, a)
            self.event(i, st, 'setElementTransform')
            s2 = st.copy()
            st.env[i.id], s2.env[i.id] = 1, 0
            self.fail(s2, 'setting a transform', i)
            return [st, s2]
        elif n == 'convert':
            self.event(i, st, 'convert')
            d = st.bit.get('dangling:T10')
            self.note('T10:alive', 'until convert', 'violation' if d else 'ok', st, 'data given to the converter was %s at %s'
                      % d if d else '', i.where())
            for x in ('getVertexStreams', 'getTransforms'):
                self.complete('T05:everything', x, {'getVertexStreams': 'addVertexStream', 'getTransforms': 'setElementTransform'}[x],
                              st, i)
            s2 = st.copy()
            self.put(w, st, ('conv', valid, 'converted', rep))
            st.env[i.id], s2.env[i.id] = 1, 0
            self.fail(s2, 'converting', i)
            if rep:
                s2.bit['rep'] = 1
            return [s2] if valid == 0 else [st, s2]
        elif n in ('getVertices', 'getIndices', 'getVertexCount', 'getVertexElementBounds'):
            if state is not None and 'failed' not in st.bit:
                self.note('T05:everything', 'output used after convert', 'ok' if state == 'converted' else 'violation', st,
                          '%s() is called before convert()' % n, i.where())
            if n == 'getVertexElementBounds':
                self.check_bounds(i, st, a)
        return [st]

    def calls_in(self, l, name):
        return any(qualified(j['dem'])[1] == name for j in self.fn.all() if j.op in ('call', 'invoke') and j.bb in l.blocks)

    def complete(self, rule, V, what, st, i, inst=None):
        """Everything in container V was handled exactly once."""
        if 'failed' in st.bit:
            return
        d = st.bit.get(('done', V))
        inst = inst or '%s: %s' % (V, what)
        if d is None and what in ('addVertexStream', 'setElementTransform') and ('left', what) not in st.bit and \
                not any(qualified(j['dem'])[1] == what and self.g.loop_of[j.bb] is None for j in self.fn.all()
                        if j.op in ('call', 'invoke')):
            self.note(rule, inst, 'violation', st, '%s() is not called on a path that goes on without a failure' % what, i.where())
        elif d is None:
            self.note(rule, inst, 'undecided', st, 'no loop over %s() was found' % V, i.where())
        elif d[2]:
            self.note(rule, inst, 'violation', st, 'a loop over %s() may be left early without a failure' % V, i.where())
        elif what in d[0] or '*' in d[0] and what not in d[1]:
            self.note(rule, inst, 'ok', st)
        elif what in d[1]:
            self.note(rule, inst, 'violation', st, '%s is not done exactly once for every element of %s()' % (what, V), i.where())
        else:
            self.note(rule, inst, 'undecided', st, '%s was not found for %s()' % (what, V), i.where())

    # ---- vectors
    def vec_method(self, i, st, a, n, p, T):
        w = self.place(a[0])
        o = st.obj.get(w)
        ps = split_params(p)
        loc = self.local(w)
        nested = vecof(T) is not None
        if n == 'vector':
            if not ps or ps[0].startswith('std::allocator'):
                v = NEW
            elif len(ps) == 1 and ps[0].startswith('std::vector<'):
                q = self.place(a[1])
                v = st.obj.get(q)
                v = v if isinstance(v, Vec) else ANY
                if q[0] == 't':
                    v = NEW._replace(labels=frozenset([('copy', a[1])]), empt=0)
                if ps[0].endswith('&&'):
                    if isinstance(st.obj.get(q), Vec):
                        st.obj[q] = NEW
                else:
                    v = v._replace(lent='')
            else:
                v = ANY._replace(labels=frozenset([('sized', a[1])])) if ps[0] == 'unsigned long' else ANY
            if loc:
                self.put(w, st, v)
        elif n.startswith('~'):
            self.change(w, st, i, 'destroyed')
            self.put(w, st, None)
        elif n in ('empty', 'size'):
            if isinstance(o, Vec):
                one, zero = (1, 0) if n == 'empty' else (0, 'nz')
                if o.empt == 1:
                    st.env[i.id] = one
                elif o.empt == 2:
                    st.env[i.id] = zero
                elif n == 'empty':
                    s2 = st.copy()
                    st.env[i.id], s2.env[i.id] = one, zero
                    st.obj[w] = o._replace(empt=1)
                    s2.obj[w] = o._replace(empt=2)
                    return [st, s2]
        elif n in ('push_back', 'emplace_back'):
            self.push(i, st, a, n, ps, w, o, T)
        elif n == 'reserve':
            if isinstance(o, Vec):
                if o.lent:
                    self.change(w, st, i, 'reallocated') if not nested else None
                st.obj[w] = o._replace(cap=a[1], loops=frozenset())
        elif n == 'clear':
            self.change(w, st, i, 'cleared')
            if loc:
                self.put(w, st, NEW)
        elif n == 'operator=':
            self.change(w, st, i, 'replaced')
            q = self.place(a[1])
            v = st.obj.get(q)
            v = v if isinstance(v, Vec) else ANY
            if ps and ps[0].endswith('&&'):
                if isinstance(st.obj.get(q), Vec):
                    st.obj[q] = NEW
            else:
                v = v._replace(lent='')
            if loc:
                self.put(w, st, v)
        elif n == 'swap':
            q = self.place(a[1])
            x, y = st.obj.get(w), st.obj.get(q)
            self.put(w, st, y)
            self.put(q, st, x)
        elif n == 'insert' or n == 'assign':
            self.insert(i, st, a, n, w, o)
        elif n in ('begin', 'end', 'cbegin', 'cend', 'data', 'operator[]', 'at', 'back', 'front', 'capacity') or i['dem'].endswith(' const'):
            pass
        elif n == 'resize' and w[0] == 't':
            self.event(i, st, 'resize')
            st.bit['room'] = (a[0], a[1], i.where())
        else:
            self.change(w, st, i, 'changed by %s()' % n)
            if isinstance(o, Vec):
                st.obj[w] = ANY
        return [st]

    def push(self, i, st, a, n, ps, w, o, T):
        if not isinstance(o, Vec):
            return
        l = self.g.loop_of[i.bb]
        lab = None
        lent = o.lent
        if vecof(T) is not None and len(a) == 2:
            # a buffer is moved into storage, which keeps its memory in place
            q = self.place(a[1])
            b = st.obj.get(q)
            if isinstance(b, Vec):
                if ps[0].endswith('&&'):
                    if b.lent and b.empt != 1:
                        lent = 'T10'
                    st.obj[q] = NEW
                lab = 'buffer'
        elif 'basic_string<' in T[:40] and len(a) == 2:
            x = self.string(a[1], st) if 'basic_string' in ps[0] else self.text(a[1], st)
            lab = x.parts
            q = self.place(a[1])
            if ps[0].endswith('&&'):
                self.change(q, st, i, 'moved from')
                if isinstance(st.obj.get(q), Str):
                    st.obj[q] = UNK
            self.check_name(i, st, x, w)
        elif T == 'IndexFileData' and len(a) == 2:
            lent = self.check_index(i, st, a)
            lab = 'index'
        if not vecof(T) and o.lent == 'T07' and 'basic_string<' in T[:40]:
            # more elements after text of one was lent: only within reserved memory
            V = self.over(l) if l is not None else None
            cap = atom_of(o.cap) if o.cap is not None else None
            fits = cap is not None and cap[0] == 'call' and qualified(cap[1])[1] == 'size' and V is not None and cap[2][0] == V
            if not fits or o.loops - {l.id}:
                self.change(w, st, i, 'reallocated')
            elif st.bit.get(('n', l.id, 'push %s' % (w,)), 0) >= 1:
                self.change(w, st, i, 'reallocated')
        self.event(i, st, 'push %s' % (w,))
        labels = None if o.labels is None else o.labels | frozenset([lab])
        if labels is not None and len(labels) > 8:
            labels = None
        st.obj[w] = o._replace(labels=labels, last=lab if isinstance(lab, tuple) else None, lent=lent, empt=2,
                               loops=o.loops | frozenset([l.id if l is not None else None]))

    def insert(self, i, st, a, n, w, o):
        """Data of a file is appended."""
        if not isinstance(o, Vec):
            return
        self.change(w, st, i, 'changed')
        lab = None
        if n == 'insert' and len(a) == 4:
            # buffer and number of bytes
            d = padd(a[3], a[2], -1) if a[2][0] == a[3][0] == 'p' else None
            x = atom_of(d) if d is not None else None
            q = self.place(a[2])
            at = atom_of(a[1])
            atend = at is not None and at[0] == 'call' and qualified(at[1])[1] in ('end', 'cend') and self.place(at[2][0]) == w
            src = st.bit.get(('read', q)) if self.local(q) else None
            if src is not None:
                s = st.obj.get(src)
                if isinstance(s, In):
                    inst = 'amount'
                    if x is not None and x[0] == 'call' and qualified(x[1])[1] == 'gcount':
                        ok = self.root_of(x[2][0]) == src[0]
                        self.note('T09:complete', inst, 'ok' if ok else 'undecided', st, 'gcount() of another stream', i.where())
                    elif d is not None and sconst(d) is not None:
                        self.note('T09:complete', inst, 'violation', st, '%d bytes are appended however many were read' % sconst(d),
                                  i.where())
                    else:
                        self.note('T09:complete', inst, 'undecided', st, 'number of bytes appended: %s' % show(d)[:60], i.where())
                    if not atend:
                        front = at is not None and at[0] == 'call' and qualified(at[1])[1] in ('begin', 'cbegin') and \
                            self.place(at[2][0]) == w
                        self.note('T09:complete', 'place', 'violation' if front else 'undecided', st,
                                  'later blocks are put in front of earlier ones' if front else 'data is not appended at the end',
                                  i.where())
                    if not s.pend:
                        self.note('T09:complete', 'order', 'violation', st, 'a block may be appended twice', i.where())
                    st.obj[src] = s._replace(pend=0)
                    lab = ('file', src)
        labels = None if o.labels is None or lab is None else o.labels | frozenset([lab])
        st.obj[w] = o._replace(labels=labels, empt=0, lent='')

    def root_of(self, t):
        if t[0] != 'p':
            return None
        for k, c in t[2]:
            if len(k) == 1 and k[0][0] == 'alloca' and c == 1:
                return k[0]
        return None

    # ---- file streams
    def stream(self, i, st, a, c, n, p):
        ps = split_params(p)
        r = self.root(i['args'][0]) if i['args'] else None
        if r is not None and r[0] == 'g':
            if r[1] == '_ZSt4cout':
                if n in ('flush',):
                    return self.flush_cout(i, st)
                if n == 'operator<<':
                    return self.shift(i, st, a, n, [''] + ps)
                if n in ('good', 'operator bool'):
                    st.env[i.id] = 0 if st.bit.get('coutbad') else 1
                elif n in ('fail', 'bad', 'operator!'):
                    st.env[i.id] = 1 if st.bit.get('coutbad') else 0
                elif n in ('write', 'put'):
                    x = self.text(a[1], st).parts if n == 'write' else None
                    sts = self.output(i, st, x, None, None)
                    if len(sts) == 2:
                        sts[1].bit['coutbad'] = 1
                    return sts
            elif r[1] in ('_ZSt4cerr', '_ZSt4clog') and n in ('operator<<', 'write'):
                return self.message(i, st)
            return [st]
        key = (r, 0)
        o = st.obj.get(key)
        if n in ('basic_ifstream', 'basic_ofstream', 'basic_fstream', 'open') and (n != 'open' or c.startswith(('std::basic_ifs', 'std::basic_ofs'))):
            w = c if n == 'open' else n
            if not ps:
                return [st]
            x = self.string(a[1], st) if 'basic_string<' in ps[0] else self.text(a[1], st)
            mode = self.mode(a[2]) if len(a) > 2 else (8 if 'ifstream' in w else 16)
            if r is None:
                st.bit['imp'] = st.bit.get('imp') or 'a stream'
                return [st]
            s2 = st.copy()
            if 'ifstream' in w and x.parts is not None and len(x.parts) == 1 and x.parts[0][0] == 'join' and 'failed' not in st.bit:
                y = x.parts[0][2]
                if y is not None and len(y) == 1 and y[0][0] == 'str':
                    self.prefixed(i, st, y[0][1], False)
            if 'ifstream' in w:
                self.put(key, st, In(x.parts, mode, 1, '', 0, 0))
                self.put(key, s2, In(x.parts, mode, 0, 'fail', 0, 0))
                self.fail(s2, 'opening an input file', i)
            elif 'ofstream' in w:
                self.opened(i, st, x, mode)
                site = i.where()
                self.put(key, st, Out(x.parts, mode, 1, 1, 1, (), site))
                self.put(key, s2, Out(x.parts, mode, 0, 0, 0, (), site))
                self.fail(s2, 'opening an output file', i)
            else:
                st.bit['imp'] = st.bit.get('imp') or 'a stream'
                return [st]
            return [st, s2]
        if isinstance(o, In):
            return self.infile(i, st, a, n, key, o)
        if isinstance(o, Out):
            return self.outfile(i, st, a, n, key, o)
        return [st]

    def mode(self, t):
        k = sconst(t)
        if k is not None:
            return k
        a = atom_of(t)
        if a is not None and a[0] == 'call' and qualified(a[1])[1] == 'operator|':
            x, y = self.mode(a[2][0]), self.mode(a[2][1])
            return x | y if x is not None and y is not None else None
        return None

    def infile(self, i, st, a, n, key, o):
        if n == 'is_open':
            st.env[i.id] = o.opened
        elif n == 'read':
            q = self.place(a[1])
            size = sconst(a[2])
            cap = None
            j = self.fn.insts.get(q[0][1]) if self.local(q) else None
            if j is not None and size is not None and j.get('allocsize'):
                cap = j['allocsize']
                self.note('T09:complete', 'buffer', 'ok' if size <= cap else 'violation', st, '%d bytes are read into %d' % (size, cap),
                          i.where())
            if self.local(q):
                st.bit[('read', q)] = key
            if o.last in ('eof', 'bad', 'fail'):
                st.obj[key] = o._replace(lost=o.lost or (1 if o.pend else 0), pend=0, last=o.last)
                return [st]
            lost = o.lost or (1 if o.pend else 0)
            out = []
            for last in ('full', 'eof', 'bad'):
                s = st.copy()
                s.obj[key] = o._replace(last=last, pend=1, lost=lost)
                if last == 'bad':
                    self.fail(s, 'reading an input file', i)
                out.append(s)
            return out
        elif n == 'good':
            st.env[i.id] = int(o.last in ('', 'full'))
        elif n == 'bad':
            st.env[i.id] = int(o.last == 'bad')
        elif n == 'eof':
            st.env[i.id] = int(o.last == 'eof')
        elif n == 'fail' or n == 'operator!':
            st.env[i.id] = int(o.last not in ('', 'full'))
        elif n == 'operator bool':
            st.env[i.id] = int(o.last in ('', 'full'))
        elif n.startswith('~') or n == 'close':
            # what was read is now known to be complete or not
            why = self.incomplete(o)
            for p, v in list(st.obj.items()):
                if isinstance(v, Vec) and v.labels and ('file', key) in v.labels:
                    st.obj[p] = v._replace(labels=v.labels - {('file', key)} | {('file', o.parts, why)})
            if n.startswith('~'):
                self.put(key, st, None)
        elif n in ('gcount',):
            pass
        else:
            st.obj[key] = o._replace(lost='?')
        return [st]

    def incomplete(self, o):
        if o.lost == '?':
            return '?'
        if o.lost or o.pend:
            return 'the last block is not used'
        if o.last != 'eof' and o.last != 'bad':
            return 'reading stops before the end'
        return ''

    def outfile(self, i, st, a, n, key, o):
        if n == 'is_open':
            st.env[i.id] = int(o.opened and o.open) if o.opened else 0
        elif n == 'write':
            st.obj[key] = o = o._replace(data=o.data + ((a[1], a[2]),) if len(o.data) < 3 else o.data)
            if o.ok:
                s2 = st.copy()
                s2.obj[key] = o._replace(ok=0, bad=1)
                self.fail(s2, 'writing an output file', i)
                return [st, s2]
        elif n in ('close', 'flush') or n.startswith('~'):
            out = [st]
            if n == 'close' or n.startswith('~'):
                if o.open and o.opened or not o.opened and not n.startswith('~') or o.opened and o.open is None:
                    pass
                if o.opened and o.open:
                    self.written(i, st, o)
            if o.ok and o.open and o.data:
                s2 = st.copy()
                # close() sets only the fail bit
                s2.obj[key] = o._replace(ok=0, open=0 if n != 'flush' else 1, bad=int(n == 'flush'))
                self.fail(s2, 'closing an output file', i)
                out.append(s2)
            st.obj[key] = o._replace(open=0 if n != 'flush' else 1)
            if n.startswith('~'):
                for s in out:
                    self.put(key, s, None)
            return out
        elif n in ('good', 'operator bool'):
            st.env[i.id] = o.ok
        elif n in ('fail', 'operator!'):
            st.env[i.id] = 1 - o.ok
        elif n == 'bad':
            st.env[i.id] = o.bad
        elif n == 'eof':
            st.env[i.id] = 0
        elif n in ('put', 'operator<<'):
            st.obj[key] = o._replace(data=o.data + (('?',),))
        elif n == 'exceptions':
            st.bit['imp'] = st.bit.get('imp') or 'exceptions of a stream'
        return [st]

    # ------------------------------------------------------------ rules at events
    def start(self):
        """Objects of interest of main: the strings for the options."""
        self.outdir = self.option('-o', '--output')
        self.indir = self.option('-i', '--input')
        return St()

    def option(self, *names):
        """The string object that is given the argument of an option."""
        g, B = self.g, self.B
        cands = set()
        for i in self.fn.all():
            if i.op not in ('call', 'invoke') or not basestr(self.q(i)[0]) or self.q(i)[1] not in ('operator=', 'assign', 'basic_string'):
                continue
            a = self.args(i)
            if len(a) < 2 or not self.argv(a[1]):
                continue
            f = g.full(i.bb)
            hit = 0
            for v in B.support(f):
                x = self.matched(B.atoms[v])
                if x is not None and x[1] in names:
                    hit = B.OR(hit, x[0])
            if hit != 0 and B.AND(f, B.NOT(hit)) == 0:
                cands.add(self.place(a[0]))
        return next(iter(cands)) if len(cands) == 1 else ('none',)

    def argv(self, t):
        """The term is an argument string."""
        a = atom_of(t)
        if a is None or a[0] not in ('ld', 'ldv'):
            return False
        r = patom(root_off(a[2])[0])
        if r is not None and r == ('arg', 1):
            return True
        return a[2][0] == 'p' and any(k == (('arg', 1),) for k, c in a[2][2])

    def matched(self, a):
        """(condition, literal) for an atom that compares an argument with a literal."""
        if a[0] == 'eq' and a[2] == 0 or a[0] == 'ltc' and a[2] == 1:
            x = atom_of(a[1])
            if x is not None and x[0] == 'call' and x[1] == 'strcmp':
                for p, q in ((x[2][0], x[2][1]), (x[2][1], x[2][0])):
                    s = string_of(self.m, q)
                    if s is not None and self.argv(p):
                        return self.B.var(a), s
        c = a if a[0] == 'call' else a[1] if a[0] == 'bool' else ('',)
        if c[0] == 'call' and re.search(r'std::operator[=!]=<char', c[1]):
            for p, q in (c[2][:2], c[2][1::-1]):
                s = string_of(self.m, q)
                if s is not None and self.argv(p):
                    v = self.B.var(a)
                    return (v if 'operator==' in c[1] else self.B.NOT(v)), s
        return None

    def status(self, t, k, st):
        """The tool ends with status k."""
        f = st.bit.get('failed')
        where = t.where()
        if k is None:
            return self.note('T05:status', 'status', 'undecided', st, 'value is not known', where)
        if f is not None:
            inst = '%s at %s' % (f[0], f[1])
            if k == 0:
                self.note('T05:status', inst, 'violation', st, 'the status is 0 although this failed', where)
            else:
                self.note('T05:status', inst, 'ok', st)
            if not st.bit.get('rep'):
                self.note('T05:message', inst, 'violation' if not st.bit.get('shownu') else 'undecided', st,
                          'nothing is printed to standard error when this fails', where)
            else:
                self.note('T05:message', inst, 'ok', st)
            return
        if k != 0:
            inst = 'other failures'
            self.note('T05:message', inst, 'ok' if st.bit.get('rep') else 'violation', st,
                      'the status is not 0, without a message on standard error', where)
            if st.bit.get('shown'):
                self.note('T05:status', inst, 'violation', st, 'the status is not 0 although everything was done', where)
            return
        if st.bit.get('dirty') and st.bit.get('shown'):
            self.note('T05:status', 'the result is flushed', 'violation', st, 'the result may be lost after the status 0 was chosen', where)
        elif st.bit.get('shown'):
            self.note('T05:status', 'the result is flushed', 'ok', st)
        if st.bit.get('rep'):
            self.note('T05:status', 'errors', 'violation', st, 'the status is 0 after a message on standard error', where)
        else:
            self.note('T05:status', 'errors', 'ok', st)
        if st.bit.get('shown'):
            if st.bit.get('help'):
                self.note('T05:result', 'text', 'violation', st, 'other text is printed together with the result', where)
            for k2, what in (('load', 'the configuration was loaded'), ('convert', 'conversion was done')):
                n = st.bit.get(('n', None, k2), 0)
                self.note('T05:everything', what, 'ok' if n == 1 else 'violation' if n == 0 else 'undecided', st,
                          'the status is 0 but %s() was called %s times' % (k2, n), where)
            self.note('T05:everything', 'status 0', 'ok', st)
            self.finished(t, st)
        elif st.bit.get('help'):
            self.note('T05:everything', 'status 0', 'ok', st)
        elif st.bit.get('shownu'):
            self.note('T05:everything', 'status 0', 'undecided', st, 'unknown text is printed', where)
        else:
            self.note('T05:everything', 'status 0', 'violation', st, 'the status is 0 but nothing is printed', where)

    def finish(self, t, st):
        self.status(t, self.known(t.ops[0], st) if t.ops else None, st)

    def finished(self, t, st):
        pass

    # ------------------------------------------------------------ T11: the configuration
    def check_load(self, i, st, a, p):
        o = st.obj.get(self.indir)
        where = i.where()
        if not isinstance(o, Str):
            return self.note('T11:input', 'configuration', 'undecided', st, 'no string holds the argument of --input', where)
        if 'istream' in p:
            r = self.root(i['args'][1])
            if r != ('g', '_ZSt3cin'):
                self.note('T11:input', 'standard input', 'undecided', st, 'the configuration is read from another stream', where)
            elif o.parts == ():
                self.note('T11:input', 'standard input', 'ok', st)
            else:
                self.note('T11:input', 'standard input', 'violation', st, 'the configuration is read from standard input although '
                          'an input file may be given', where)
            st.bit['src'] = ('stdin',)
        else:
            x = self.text(a[1], st)
            if o.parts == () or not o.ne:
                self.note('T11:input', 'input file', 'violation', st, 'a configuration file is read although no input file may be '
                          'given', where)
            elif x.parts is None or o.parts is None:
                self.note('T11:input', 'input file', 'undecided', st, 'the path is not known', where)
            elif x.parts != o.parts:
                self.note('T11:input', 'input file', 'violation', st, 'another path than the argument of --input is read: %s' %
                          self.say(x.parts), where)
            else:
                self.note('T11:input', 'input file', 'ok', st)
            st.bit['src'] = ('file', o.parts)

    def say(self, parts):
        if parts is None:
            return '?'
        out = []
        for x in parts:
            if x[0] == 'lit':
                out.append(repr(x[1]))
            elif x[0] in ('str', 'cstr', 'num'):
                out.append('%s(%s)' % (x[0], show(x[1])[-60:]))
            elif x[0] == 'rest':
                out.append('%s from character %d' % (self.say(x[1]), x[2]))
            elif x[0] in ('join',):
                out.append('join(%s, %s)' % (self.say(x[1]), self.say(x[2])))
            elif x[0] in ('parent', 'file'):
                out.append('%s(%s)' % (x[0], self.say(x[1])))
            else:
                out.append(x[0])
        return ' + '.join(out) or "''"

    # ------------------------------------------------------------ T05: settings of the converter
    def accessor(self, t, name, st):
        """The term is the result of an accessor of the configuration or converter."""
        a = atom_of(t)
        return a is not None and a[0] == 'call' and qualified(a[1])[1] == name

    def setting(self, inst, ok, st, i, detail, unknown=False):
        self.note('T05:settings', inst, 'ok' if ok else 'undecided' if unknown else 'violation', st, detail, i.where())

    def check_settings(self, i, st, a):
        v = st.obj.get(self.place(a[1]))
        lab = next(iter(v.labels)) if isinstance(v, Vec) and v.labels is not None and len(v.labels) == 1 else None
        ok = isinstance(lab, tuple) and lab[0] == 'copy' and self.accessor(lab[1], 'getVertexFormat', st)
        self.setting('vertex format', ok, st, i, 'the converter gets another vertex format', lab is None)
        for k, n in ((2, 'getIndexType'), (3, 'getPrimitiveType'), (4, 'getPatchPoints')):
            x = a[k]
            acc = self.accessor(x, n, st)
            unk = x[0] == 'undef' or not acc and any(y[0] in ('ld', 'ldv', 'phi', 'undef') for y in subterms(x) if isinstance(y, tuple) and y)
            self.setting(n[3:], acc, st, i, 'the converter gets %s' % show(x)[:80], unk)

    def check_transform(self, i, st, a):
        x = self.element(a[1])
        ok = x is not None and self.which(x[0]) == 'getTransforms' and x[2] == 0
        c = atom_of(a[1])
        if not ok and c is not None and c[0] == 'call' and IS_CSTR(c[1]):
            x = self.element(c[2][0])
            ok = x is not None and self.which(x[0]) == 'getTransforms' and x[2] == 0
        self.setting('transform: name', ok, st, i, 'the transform is set for %s' % show(a[1])[:80], not ok)
        y = atom_of(a[2])
        z = self.element(y[2]) if y is not None and y[0] in ('ld', 'ldv') else None
        ok2 = z is not None and x is not None and z[0] == x[0] and z[1] == x[1] and z[2] == 32
        self.setting('transform: kind', ok2, st, i, 'the transform is %s' % show(a[2])[:80], sconst(a[2]) is None)

    # ------------------------------------------------------------ T09, T10: input data
    def sources(self, t, st):
        """(vector place, contents) for an argument that points to data."""
        a = atom_of(t)
        if a is None or a[0] != 'call' or qualified(a[1])[1] not in ('data', 'begin', 'operator[]', 'front'):
            return None, None
        p = self.place(a[2][0])
        return p, st.obj.get(p)

    def from_config(self, kind, off, lab, st, where):
        """Check one origin of data against the text of the stream in the configuration."""
        if not isinstance(lab, tuple) or lab[0] not in ('dec', 'file'):
            self.note('T09:origin', kind, 'undecided', st, 'data comes from elsewhere', where)
            return None
        parts = lab[1]
        if parts is None or len(parts) != 1:
            self.note('T09:origin', kind, 'undecided', st, 'data comes from text that is not followed', where)
            return None
        x = parts[0]
        if lab[0] == 'dec':
            if x[0] == 'str' or x[0] == 'rest' and x[2] != 7:
                self.note('T09:origin', kind, 'violation', st, 'text is decoded from character %d on, not after the prefix' %
                          (x[2] if x[0] == 'rest' else 0), where)
                return None
            src = x[1] if x[0] == 'rest' else None
        else:
            if lab[2] == '?':
                self.note('T09:complete', 'whole file', 'undecided', st, 'reading is not followed', where)
            elif lab[2]:
                self.note('T09:complete', 'whole file', 'violation', st, 'data of a file may be incomplete: ' + lab[2], where)
            else:
                self.note('T09:complete', 'whole file', 'ok', st)
            src = None
            if x[0] == 'str':
                self.note('T09:origin', kind, 'violation', st, 'the path is not relative to the configuration', where)
                return None
            if x[0] == 'join':
                src = x[2]
                want = st.bit.get('src')
                if x[1] is None or want is None:
                    self.note('T09:origin', 'directory', 'undecided', st, 'the directory is not known', where)
                else:
                    spec = () if want[0] == 'stdin' else (('parent', want[1]),)
                    self.note('T09:origin', 'directory', 'ok' if x[1] == spec else 'violation', st, 'files are looked for in %s, not %s'
                              % (self.say(x[1]), self.say(spec)), where)
        if not src or len(src) != 1 or src[0][0] != 'str':
            self.note('T09:origin', kind, 'undecided', st, 'data comes from text that is not followed', where)
            return None
        e = self.element(src[0][1])
        if e is None or self.which(e[0]) != 'getVertexStreams':
            self.note('T09:origin', kind, 'undecided', st, 'data comes from %s' % show(src[0][1])[:60], where)
            return None
        if e[2] != off:
            self.note('T09:origin', kind, 'violation', st, '%s comes from another member of the stream (offset %d, not %d)' %
                      (kind, e[2], off), where)
            return None
        self.note('T09:origin', kind, 'ok', st)
        return e

    def sizes_only(self, under, *ts):
        """The terms and the condition with sizes and members of elements as plain symbols, so that valuations can be
        chosen; None if something else decides them.  Conditions on other things are left free."""
        B, c = self.B, self.F.c
        ver = {}
        clash = []

        def f(a):
            k = a[0]
            if k == 'call' and qualified(a[1])[1] in ('size', 'stride', 'indexSize'):
                key = ('sym', qualified(a[1])[1], a[2])
            elif k in ('ld', 'ldv') and self.element(a[2]) is not None:
                key = ('sym', 'member', a[2], a[1])
            else:
                return None
            if ver.setdefault(key, a[3:]) != a[3:]:
                clash.append(key)
            return key
        out = [c.subst(t, f) for t in ts]
        u = c.bsubst(under, f)
        seen = {x for t in out for x in c.walk(t) if x[0] == 'sym'}
        drop = []
        for v in B.support(u):
            if c.unknown(B.atoms[v]) or not any(x[0] == 'sym' for x in c.walk(B.atoms[v])):
                if any(x in seen and x[1] != 'member' for x in c.walk(B.atoms[v])):
                    return None
                drop.append(v)
        for v in drop:
            u = B.OR(B.restrict(u, v, 0), B.restrict(u, v, 1))
        if clash or any(c.unknown(t) for t in out):
            return None
        g = self.g
        for x in {x for t in out + [('b', u)] for x in c.walk(t) if x[0] == 'sym'}:
            if x[1] == 'indexSize':
                t = A(32, x)
                u = B.AND(u, B.OR(g.cmp('eq', t, K(32, 2)), g.cmp('eq', t, K(32, 4))))
            elif x[1] == 'stride':
                t = A(32, x)
                u = B.AND(u, B.NOT(g.cmp('eq', t, K(32, 0))), g.cmp('ult', t, K(32, 1 << 16)))
            elif x[1] == 'size':
                u = B.AND(u, g.cmp('ult', A(64, x), K(64, 1 << 62)))
        # any iteration of the loops around
        m = {('iv', l.id): ('sym', 'K', l.id) for l in g.loops}
        return g.rename(('b', u), m)[1], [g.rename(x, m) for x in out]

    def size_teq(self, got, spec, under=1):
        c = self.F.c
        s, why = c.teq(got, spec, under)
        if s == 'undecided':
            x = self.sizes_only(under, got, spec)
            if x is not None:
                return c.teq(x[1][0], x[1][1], x[0], 6000)
        return s, why

    def divisible(self, inst, size, unit, also, i, st):
        """At the call the size is known to be a multiple."""
        g, B = self.g, self.B
        f = g.full(i.bb)
        rem = A(64, ('urem', size, unit))
        want = B.OR(g.cmp('eq', rem, K(64, 0)), also)
        if B.AND(f, B.NOT(want)) == 0:
            return self.note('T09:sizes', inst, 'ok', st)
        szs = {x for x in subterms(size) if isinstance(x, tuple) and x and x[0] == 'call' and qualified(x[1])[1] in ('size', 'end')}
        seen = any(szs & set(subterms(B.atoms[v])) for v in B.support(f))
        st2, why = self.F.c.beq(want, 1, f)
        if st2 == 'undecided':
            x = self.sizes_only(f, ('b', want))
            if x is not None:
                st2, why = self.F.c.beq(x[1][0][1], 1, x[0], 6000)
        if st2 == 'violation' or not seen:
            self.note('T09:sizes', inst, 'violation', st, 'data is used whose size may not be a multiple: %s' % why, i.where())
        else:
            self.note('T09:sizes', inst, 'undecided', st, 'the size may not be a multiple: %s' % why, i.where())

    def check_stream(self, i, st, a, p):
        where = i.where()
        if 'failed' in st.bit:
            if st.bit['failed'][0] in ('opening an input file', 'reading an input file', 'decoding base64 data'):
                self.note('T09:complete', 'failure', 'violation', st, 'a stream is added although %s at %s failed' %
                          st.bit['failed'][:2], where)
            return
        self.note('T09:complete', 'failure', 'ok', st)
        if len(a) < 7:
            return self.note('T09:origin', 'stream', 'undecided', st, 'other form of addVertexStream()', where)
        fmt = a[1]
        cp = st.obj.get(self.place(fmt))
        if isinstance(cp, tuple) and len(cp) == 2 and cp[0] == 'copy':
            fmt = cp[1]
        e = self.element(fmt)
        if e is not None and self.which(e[0]) == 'getVertexStreams' and e[2] != 0:
            return self.note('T09:origin', 'vertex format', 'violation', st, 'another member is used as vertex format', where)
        if e is None or self.which(e[0]) != 'getVertexStreams':
            return self.note('T09:origin', 'vertex format', 'undecided', st, 'the vertex format is %s' % show(a[1])[:60], where)
        self.note('T09:origin', 'vertex format', 'ok', st)
        g, B = self.g, self.B
        ity = None
        y = atom_of(a[4])
        z = self.element(y[2]) if y is not None and y[0] in ('ld', 'ldv') else None
        if z is not None and z[0] == e[0] and z[1] == e[1] and z[2] == 32:
            self.note('T09:origin', 'index type', 'ok', st)
            ity = a[4]
        else:
            self.note('T09:origin', 'index type', 'undecided' if sconst(a[4]) is None else 'violation', st,
                      'the index type is %s' % show(a[4])[:60], where)
        for kind, k, off in (('vertex data', 2, 40), ('index data', 5, 72)):
            pl, v = self.sources(a[k], st)
            if pl is None or not self.local(pl):
                self.note('T09:origin', kind, 'undecided', st, 'data is %s' % show(a[k])[:60], where)
                d = [x for x in subterms(a[k]) if isinstance(x, tuple) and x and x[0] == 'call' and IS_CSTR(x[1])]
                continue
            if not isinstance(v, Vec) or v.labels is None:
                self.note('T09:origin', kind, 'undecided', st, 'data is not followed', where)
            else:
                if len(v.labels) > 1:
                    self.note('T09:origin', kind, 'violation', st, 'data of several origins is put together', where)
                for lab in v.labels:
                    x = self.from_config(kind, off, lab, st, where)
                    if x is not None and (x[0] != e[0] or x[1] != e[1]):
                        self.note('T09:origin', kind, 'violation', st, '%s is that of another stream' % kind, where)
                if not v.labels:
                    if kind == 'vertex data':
                        self.note('T09:origin', kind, 'violation', st, 'a stream is added without its data', where)
                    elif ity is not None:
                        # only when there are no indices
                        f = g.full(i.bb)
                        self.empty_index(i, st, ity, where)
            # sizes
            size = None
            cnt = a[3] if kind == 'vertex data' else a[6]
            sz = self.size_term(pl, cnt, i)
            if sz is None:
                self.note('T09:sizes', kind, 'undecided', st, 'the count is %s' % show(cnt)[:60], where)
            else:
                strides = [x for x in subterms(cnt) if isinstance(x, tuple) and x and x[0] == 'call' and
                           qualified(x[1])[1] == ('stride' if kind == 'vertex data' else 'indexSize')]
                unit = None
                if kind == 'vertex data':
                    s = [x for x in strides if x[2][0] == fmt]
                    if s:
                        unit, also = g.cast('zext', A(32, s[0]), 64, 32), 0
                elif ity is not None:
                    s = [x for x in strides if x[2][0] == ity]
                    if s:
                        also = g.cmp('eq', ity, K(8, 0))
                        unit = g.cast('zext', A(32, s[0]), 64, 32)
                f = g.full(i.bb)
                if unit is None and (kind == 'vertex data' or ity is not None):
                    # the size of something else, or a constant
                    want = fmt if kind == 'vertex data' else ity
                    other = [x for x in strides if x[2] and self.unlike(x[2][0], want)]
                    x = self.unit_call('stride' if kind == 'vertex data' else 'indexSize', want, f)
                    if x is not None and len(other) == len(strides):
                        unit = g.cast('zext', A(32, x), 64, 32)
                        also = g.cmp('eq', ity, K(8, 0)) if kind == 'index data' else 0
                if unit is None:
                    self.note('T09:sizes', kind, 'undecided', st, 'the count is %s' % show(cnt)[:80], where)
                else:
                    spec = g.cast('trunc', g.divterm('div', sz, unit), 32, 64)
                    got = cnt
                    s2, why = self.size_teq(got, spec, B.AND(f, B.NOT(also)))
                    self.note('T09:sizes', kind + ': count', s2, st, 'the count is not that of the data: %s' % why, where)
                    self.divisible(kind + ': multiple', sz, unit, also, i, st)
            if isinstance(v, Vec):
                st.obj[pl] = v._replace(lent='T10')
        self.note('T10:alive', 'data given', 'ok', st)

    def unlike(self, t, want):
        """An object or index type that is known to be another one than that of the stream."""
        def kind(t):
            e = self.element(t) if t[0] == 'p' else None
            if e is not None and self.which(e[0]):
                return self.which(e[0]), e[1] if self.which(e[0]) == 'getVertexStreams' else None, e[2]
            y = atom_of(t)
            if y is None:
                return None
            if y[0] == 'call' and qualified(y[1])[1] in ('getIndexType', 'getVertexFormat'):
                return qualified(y[1])[1], None, 0
            if y[0] in ('ld', 'ldv'):
                return kind(y[2])
            return None
        a, b = kind(t), kind(want)
        return a is not None and b is not None and a[0] != b[0]

    def unit_call(self, name, arg, f):
        """The call that gives the size of an element, made somewhere else."""
        B = self.B
        some = None
        for v in B.support(f):
            for x in subterms(B.atoms[v]):
                if isinstance(x, tuple) and x and x[0] == 'call' and qualified(x[1])[1] == name and x[2]:
                    if x[2][0] == arg:
                        return x
                    if self.unlike(x[2][0], arg):
                        some = x
        return some if some is None else (some[0], some[1], (arg,) + some[2][1:]) + some[3:]

    def empty_index(self, i, st, ity, where):
        """No index data was loaded: the index type must be known to be NoIndices."""
        d = st.bit.get(('noidx', ity))
        if d is True:
            self.note('T09:origin', 'index data', 'ok', st)
        elif d is False:
            self.note('T09:origin', 'index data', 'violation', st, 'index data is not loaded although there is an index type', where)
        else:
            self.note('T09:origin', 'index data', 'undecided', st, 'it is not followed whether there are indices', where)

    def size_term(self, pl, cnt, i):
        for x in subterms(cnt):
            if isinstance(x, tuple) and x and x[0] == 'call' and qualified(x[1])[1] == 'size' and x[2] and self.place(x[2][0]) == pl:
                return A(64, x)
        return None

    def prefixed(self, i, st, t, want):
        f = st.bit.get(('prefix', t))
        where = i.where()
        what = 'decoded' if want else 'taken as path'
        if f is None:
            return self.note('T09:prefix', what, 'undecided', st, 'the test for the prefix was not found', where)
        eq, s, n, fn = f
        if s.lower() != 'base64:':
            return self.note('T09:prefix', what, 'violation', st, 'the prefix is %r' % s, where)
        if n is None:
            return self.note('T09:prefix', what, 'undecided', st, 'the length of the prefix is not known', where)
        if n != 7:
            return self.note('T09:prefix', what, 'violation', st, 'the first %d characters are compared with %r' % (n, s), where)
        if fn == 'strncmp':
            return self.note('T09:prefix', what, 'violation', st, 'the prefix is case sensitive', where)
        self.note('T09:prefix', what, 'ok' if eq == want else 'violation', st, 'text with%s the prefix is %s' % ('' if eq else 'out', what),
                  where)

    # ------------------------------------------------------------ T08: output files
    def out_state(self, st):
        o = st.obj.get(self.outdir)
        return o if isinstance(o, Str) else None

    def container_loop(self, i):
        """(loop, container, index) of the loop over output streams or index buffers around an instruction."""
        l = self.g.loop_of[i.bb]
        while l is not None:
            V = self.over(l)
            n = self.which(V) if V is not None else None
            if n in ('getVertices', 'getIndices'):
                return l, n
            l = l.parent
        return None, None

    def opened(self, i, st, x, mode):
        where = i.where()
        if 'failed' in st.bit:
            return
        o = self.out_state(st)
        if o is None:
            return self.note('T08:only', 'files', 'undecided', st, 'no string holds the argument of --output', where)
        if o.parts == () or not o.ne:
            self.note('T08:only', 'files', 'violation', st, 'a file is written %s' % ('without output directory' if o.parts == () else
                      'whether or not there is an output directory'), where)
        else:
            self.note('T08:only', 'files', 'ok', st)
            self.note('T08:all', 'directory', 'ok' if st.bit.get('dir made') else 'violation', st,
                      'files are written without creating the output directory first', where)
        if mode is None:
            self.note('T08:replace', 'mode', 'undecided', st, 'the mode is not known', where)
        elif mode & 1 or mode & 8 and not mode & 32:
            self.note('T08:replace', 'mode', 'violation', st, 'existing contents are kept', where)
        else:
            self.note('T08:replace', 'mode', 'ok', st)
        if x.parts is None:
            return self.note('T08:inside', 'path', 'undecided', st, 'the path is not known', where)
        if len(x.parts) != 1 or x.parts[0][0] != 'join':
            known = all(y[0] in ('lit', 'num', 'str', 'cstr', 'file', 'parent') for y in x.parts)
            # put together by hand: directory, separator, name
            if o.parts and x.parts[:len(o.parts)] == o.parts and len(x.parts) > len(o.parts):
                rest = x.parts[len(o.parts):]
                if rest[0][0] == 'lit' and rest[0][1].startswith('/'):
                    nm = ((('lit', rest[0][1][1:]),) if rest[0][1] != '/' else ()) + rest[1:]
                    return self.file_name(i, st, nm)
                return self.note('T08:inside', 'path', 'violation', st, 'the name is not separated from the directory: %s' %
                                 self.say(x.parts), where)
            return self.note('T08:inside', 'path', 'violation' if known else 'undecided', st, 'the file is not put into the output '
                             'directory: %s' % self.say(x.parts), where)
        d, nm = x.parts[0][1:]
        if d is None or nm is None:
            return self.note('T08:inside', 'path', 'undecided', st, 'the path is not known', where)
        if d != o.parts:
            return self.note('T08:inside', 'path', 'violation', st, 'files are put into %s' % self.say(d), where)
        self.file_name(i, st, nm)

    def file_name(self, i, st, nm):
        where = i.where()
        if not nm or any(y[0] not in ('lit', 'num') for y in nm):
            return self.note('T08:inside', 'path', 'undecided', st, 'the name is %s' % self.say(nm), where)
        text = ''.join(y[1] if y[0] == 'lit' else '0' for y in nm)
        if '/' in text or text in ('.', '..') or '\\' in text:
            return self.note('T08:inside', 'path', 'violation', st, 'the name %r does not name a file in the directory' % text, where)
        self.note('T08:inside', 'path', 'ok', st)
        l, V = self.container_loop(i)
        if l is None:
            return self.note('T08:distinct', 'names', 'undecided', st, 'the file does not belong to a stream or index buffer', where)
        nums = [y[1] for y in nm if y[0] == 'num']
        good = None
        for t in nums:
            r = self.counts(t, l, st)
            if r == 'ok':
                good = 'ok'
                break
            good = good or r
            if r == 'undecided':
                good = r
        if good == 'undecided' and len(nums) == 1 and self.repeats(nums[0], l):
            good = 'violation'
        if not nums:
            good = 'violation'
        self.note('T08:distinct', 'names', good, st, 'the name %s does not differ for different %s' % (self.say(nm),
                  'streams' if V == 'getVertices' else 'index buffers'), where)
        pat = tuple(y[1] if y[0] == 'lit' else 0 for y in nm)
        self.patterns = getattr(self, 'patterns', {})
        self.patterns[(V, pat)] = where
        for (W, q), wh in self.patterns.items():
            if W != V and self.collide(pat, q):
                self.note('T08:distinct', 'names', 'violation' if pat == q else 'undecided', st, 'names of vertex and index files are '
                          'alike: %s' % self.say(nm), where)

    def collide(self, p, q):
        a, b = (p[0] if p[0] != 0 else ''), (q[0] if q[0] != 0 else '')
        n = min(len(a), len(b))
        if a[:n] != b[:n]:
            return False
        if len(a) != len(b):
            # one literal continues where the other has a number
            c = (a if len(a) > len(b) else b)[n]
            if not c.isdigit():
                return False
        a, b = (p[-1] if p[-1] != 0 else ''), (q[-1] if q[-1] != 0 else '')
        n = min(len(a), len(b))
        if n and a[-n:] != b[-n:]:
            return False
        return True

    def counts(self, t, l, st):
        """Whether a number differs in each iteration of a loop."""
        while True:
            if t[0] == 'p':
                ks = [k for k, c in t[2] if k]
                if len(ks) == 1 and len(ks[0]) == 1:
                    a = ks[0][0]
                    c = [c for k, c in t[2] if k][0]
                    if a == ('iv', l.id):
                        return 'ok' if c % (1 << min(t[1], 32)) else 'violation'
                    if a[0] == 'call' and qualified(a[1])[1] == 'size':
                        p = self.place(a[2][0])
                        v = st.obj.get(p)
                        if isinstance(v, Vec) and v.loops <= {l.id}:
                            o = st.bit.get(('once', l.id))
                            ev = 'push %s' % (p,)
                            if st.bit.get(('n', l.id, ev), 0) <= 1 and (o is None or ev in o):
                                return 'ok'
                            if o is not None and ev not in st.bit.get(('some', l.id), ()):
                                return 'violation'
                            return 'undecided'
                        return 'undecided'
                    if a[0] in ('zext', 'sext', 'trunc') and len(a) > 1 and isinstance(a[-1], tuple):
                        return 'undecided'
                if not ks:
                    return 'violation'
            a = atom_of(t)
            if a is not None and a[0] in ('zext', 'trunc', 'sext'):
                nt = [x for x in a[1:] if isinstance(x, tuple)]
                if len(nt) == 1:
                    t = nt[0]
                    continue
            if a is not None and a[0] == 'call' and self.which(t) == 'size' and self.element(a[2][0]) is not None:
                return 'violation'
            return 'undecided'

    def repeats(self, t, l):
        """A number computed from the counter of the loop alone is the same for two iterations."""
        iv = ('iv', l.id)
        seen = {}
        for n in list(range(600)) + [1 << 16, 1 << 20]:
            x = self.F.c.subst(t, lambda a, n=n: K(64, n) if a == iv else None)
            c = pconst(x) if x[0] == 'p' else None
            if c is None or c in seen:
                return c is not None
            seen[c] = n
        return False

    def bytes(self, ptr, n):
        """What the bytes from ptr are: ('vec', element) or ('index', element) if they are all of it, or a reason."""
        a = atom_of(ptr)
        if a is not None and a[0] == 'call' and qualified(a[1])[1] in ('data', 'begin'):
            e = self.element(a[2][0])
            if e is None or self.which(e[0]) != 'getVertices' or e[2]:
                return None, 'data of %s' % show(a[2][0])[:60]
            for x in subterms(n):
                if isinstance(x, tuple) and x and x[0] == 'call' and qualified(x[1])[1] == 'size' and x[2][0] == a[2][0]:
                    break
            else:
                return None, 'the size is %s' % show(n)[:60]
            s, why = self.size_teq(n, A(64, x))
            return ('vec', e) if s == 'ok' else ('bad' if s == 'violation' else None), 'the size is not that of the data: ' + why
        if a is not None and a[0] in ('ld', 'ldv'):
            e = self.element(a[2])
            if e is None or self.which(e[0]) != 'getIndices' or e[2] != 0:
                return None, 'data at %s' % show(a[2])[:60]
            isz = [x for x in subterms(n) if isinstance(x, tuple) and x and x[0] == 'call' and qualified(x[1])[1] == 'indexSize']
            E = a[2]
            lds = {self.element(x[2])[2]: x for x in subterms(n) if isinstance(x, tuple) and x and x[0] in ('ld', 'ldv') and
                   self.element(x[2]) is not None and self.element(x[2])[:2] == e[:2]}
            if len(isz) != 1 or 12 not in lds:
                if 12 in lds and not isz or isz and 12 not in lds or sconst(n) is not None:
                    return 'bad', 'the size is %s' % show(n)[-80:]
                return None, 'the size is %s' % show(n)[-80:]
            arg = atom_of(isz[0][2][0])
            if arg is None or arg[0] not in ('ld', 'ldv') or self.element(arg[2]) is None or self.element(arg[2])[0:2] != e[:2] or \
                    self.element(arg[2])[2] != 8:
                return None, 'the index size is that of %s' % show(isz[0][2][0])[:60]
            g = self.g
            spec = pmul(g.cast('zext', A(32, lds[12]), 64, 32), g.cast('zext', A(32, isz[0]), 64, 32))
            s, why = self.size_teq(n, spec)
            return ('index', e) if s == 'ok' else ('bad' if s == 'violation' else None), 'the size is not that of the data: ' + why
        return None, 'data at %s' % show(ptr)[:60]

    def written(self, i, st, o):
        """A file was opened and is now closed."""
        if 'failed' in st.bit:
            return
        where = o.site
        if not o.data:
            return self.note('T08:contents', 'file', 'violation', st, 'nothing is written to the file', where)
        if len(o.data) != 1 or len(o.data[0]) != 2:
            return self.note('T08:contents', 'file', 'undecided', st, 'the file is written in pieces', where)
        k, why = self.bytes(*o.data[0])
        if k is None or k == 'bad':
            return self.note('T08:contents', 'file', 'violation' if k == 'bad' else 'undecided', st, why, where)
        l, V = self.container_loop(self.site_of(o, i))
        want = {'vec': 'getVertices', 'index': 'getIndices'}[k[0]]
        if l is None or V != want:
            return self.note('T08:contents', 'file', 'undecided' if l is None else 'violation', st, 'the data does not belong to '
                             'the element of the loop', where)
        if k[1][1] != A(64, ('iv', l.id)):
            return self.note('T08:contents', 'file', 'violation', st, 'the data of another stream or buffer is written', where)
        self.note('T08:contents', 'file', 'ok', st)
        st.bit[('file', l.id)] = (o.parts, k[0])
        self.event(i, st, 'written')

    def site_of(self, o, i):
        return i

    # ------------------------------------------------------------ T06, T07: what is handed to the result writer
    def check_name(self, i, st, x, w):
        """Text is added to a vector: the one for vertex streams in a loop over them."""
        if 'failed' in st.bit:
            return
        l, V = self.container_loop(i)
        if V == 'getVertices':
            self.named(st, i, x.parts, 'vertex', 'vertex streams', i.where())

    def origin(self, lab, st, l):
        """Meaning of the text that names data: ('vec' or 'index', 'b64' or 'file')."""
        return None

    def named(self, st, i, parts, kind, inst, where):
        """The text describes the data of the element of the current iteration."""
        if parts is None:
            return self.note('T06:data', inst, 'undecided', st, 'the text is not followed', where)
        if len(parts) == 2 and parts[0][0] == 'lit' and parts[1][0] == 'b64' or len(parts) == 1 and parts[0][0] == 'b64':
            pre = parts[0][1] if parts[0][0] == 'lit' else ''
            if pre != 'base64:':
                return self.note('T06:data', inst, 'violation', st, 'the prefix of encoded data is %r' % pre, where)
            k, why = self.bytes(parts[-1][1], parts[-1][2])
            if k is None or k == 'bad':
                return self.note('T06:data', inst, 'violation' if k == 'bad' else 'undecided', st, why, where)
            o = self.out_state(st)
            if o is not None and (o.ne or o.parts != ()):
                self.note('T08:only', 'embedded data', 'violation', st, 'data is embedded although there may be an output directory',
                          where)
            elif o is not None:
                self.note('T08:only', 'embedded data', 'ok', st)
        else:
            f = [v for q, v in st.bit.items() if isinstance(q, tuple) and q[0] == 'file' and v[0] == parts]
            if not f:
                known = all(y[0] in ('lit', 'num', 'join', 'file', 'str', 'cstr') for y in parts)
                any_ = any(isinstance(q, tuple) and q[0] == 'file' for q in st.bit)
                return self.note('T06:data', inst, 'violation' if known and any_ else 'undecided', st,
                                 'the text is not the path of the file that was written: %s' % self.say(parts), where)
            k = (f[0][1], None)
        want = {'vertex': 'vec', 'index': 'index'}[kind]
        if k[0] != want:
            return self.note('T06:data', inst, 'violation', st, 'the data is not that of the %s' % kind, where)
        l = self.g.loop_of[i.bb]
        if k[1] is not None and (l is None or k[1][1] != A(64, ('iv', l.id))):
            return self.note('T06:data', inst, 'violation' if l is not None else 'undecided', st, 'the data is that of another element',
                             where)
        self.note('T06:data', inst, 'ok', st)

    def check_index(self, i, st, a):
        """An entry for an index buffer."""
        where = i.where()
        w = self.place(a[0])
        o = st.obj.get(w)
        lent = o.lent
        l, V = self.container_loop(i)
        if l is None or V != 'getIndices':
            self.note('T06:index', 'entry', 'undecided', st, 'an entry is added outside of the loop over the index buffers', where)
            return lent
        g = self.g
        base = a[1]
        ctx = g.loop_of[i.bb]
        vals = [self.canon(g.value_before(padd(base, K(64, off)), ty, i, ctx)) for off, ty in ((0, 'i32'), (4, 'i32'), (8, 'ptr'))]
        for nm, v, off in (('count', vals[0], 12), ('base vertex', vals[1], 16)):
            x = atom_of(v)
            e = self.element(x[2]) if x is not None and x[0] in ('ld', 'ldv') else None
            if e is not None and self.which(e[0]) == 'getIndices' and e[1] == A(64, ('iv', l.id)):
                self.note('T06:index', nm, 'ok' if e[2] == off else 'violation', st, 'the %s is another member (offset %d)' % (nm, e[2]),
                          where)
            elif sconst(v) is not None or e is not None and self.which(e[0]) == 'getIndices':
                self.note('T06:index', nm, 'violation', st, 'the %s is %s' % (nm, show(v)[-60:]), where)
            else:
                self.note('T06:index', nm, 'undecided', st, 'the %s is %s' % (nm, show(v)[-60:]), where)
        x = atom_of(vals[2])
        if x is None or x[0] != 'call' or not IS_CSTR(x[1]):
            self.note('T07:alive', 'index text', 'undecided', st, 'the text is %s' % show(vals[2])[:60], where)
            return lent
        s = x[2][0]
        txt = self.string(s, st)
        self.named(st, i, txt.parts, 'index', 'index buffers', where)
        y = atom_of(s)
        if self.local(self.place(s)):
            # text of a local string
            v = st.obj.get(self.place(s))
            if isinstance(v, Str):
                st.obj[self.place(s)] = v._replace(lent='T07')
                self.note('T07:alive', 'index text', 'ok', st)
            else:
                self.note('T07:alive', 'index text', 'undecided', st, 'the text is %s' % show(vals[2])[:60], where)
        elif y is not None and y[0] == 'call' and qualified(y[1])[1] in ('back', 'operator[]', 'at', 'front'):
            p = self.place(y[2][0])
            v = st.obj.get(p)
            if isinstance(v, Vec):
                st.obj[p] = v._replace(lent='T07')
                self.note('T07:alive', 'index text', 'ok', st)
                fn = qualified(y[1])[1]
                if fn == 'front' or len(y[2]) > 1 and sconst(y[2][1]) is not None:
                    self.note('T06:index', 'text', 'violation', st, 'the text is always that of the same index buffer', where)
                elif fn != 'back' and (len(y[2]) < 2 or y[2][1] != A(64, ('iv', l.id))):
                    self.note('T06:index', 'text', 'undecided', st, 'the text is %s' % show(vals[2])[:60], where)
                else:
                    self.note('T06:index', 'text', 'ok', st)
            else:
                self.note('T07:alive', 'index text', 'undecided', st, 'the text is %s' % show(vals[2])[:60], where)
        else:
            self.note('T07:alive', 'index text', 'undecided', st, 'the text is %s' % show(vals[2])[:60], where)
        return lent

    def check_bounds(self, i, st, a):
        where = i.where()
        if 'failed' in st.bit:
            return
        if len(a) < 5:
            return self.note('T06:bounds', 'arguments', 'undecided', st, 'other form of getVertexElementBounds()', where)
        lo, hi = self.element(a[1]), self.element(a[2])
        if lo is None or hi is None:
            return self.note('T06:bounds', 'arguments', 'undecided', st, 'bounds are stored at %s' % show(a[1])[:60], where)
        if lo[0] != hi[0] or lo[1] != hi[1]:
            return self.note('T06:bounds', 'arguments', 'violation', st, 'minimum and maximum are stored for different elements', where)
        if (lo[2], hi[2]) != (0, 32):
            return self.note('T06:bounds', 'arguments', 'violation', st, 'minimum and maximum are stored at offsets %d and %d' %
                             (lo[2], hi[2]), where)
        outer = self.element(lo[0])
        if outer is None:
            return self.note('T06:bounds', 'arguments', 'undecided', st, 'bounds are stored in %s' % show(lo[0])[:60], where)
        if a[3] != outer[1] or a[4] != lo[1]:
            cnts = all(self.counter(x) for x in (a[3], a[4], outer[1], lo[1]))
            return self.note('T06:bounds', 'arguments', 'violation' if cnts else 'undecided', st, 'bounds of element %s of stream %s are '
                             'stored for element %s of stream %s' % (show(a[4]), show(a[3]), show(lo[1]), show(outer[1])), where)
        self.note('T06:bounds', 'arguments', 'ok', st)
        rm = st.bit.get('room')
        if rm is not None and self.place(rm[0]) == self.place(lo[0]):
            sz = atom_of(rm[1])
            of = self.element(sz[2][0]) if sz is not None and sz[0] == 'call' and qualified(sz[1])[1] == 'size' else None
            if sconst(rm[1]) is not None or of is not None and self.which(of[0]) == 'getVertexFormat' and self.counter(of[1]) and \
                    of[1] != outer[1]:
                self.note('T06:bounds', 'room', 'violation', st, 'room is made for %s elements' % show(rm[1]), rm[2])
            elif self.too_small(rm[1], outer[1]):
                self.note('T06:bounds', 'room', 'violation', st, 'room is made for %s elements' % show(rm[1])[:60], rm[2])
            else:
                self.note('T06:bounds', 'room', 'ok' if of is not None and of[1] == outer[1] else 'undecided', st,
                          'room is made for %s elements' % show(rm[1])[:60], rm[2])
        st.bit['boundsof'] = self.place(outer[0])
        self.event(i, st, 'bounds')

    def too_small(self, t, k):
        """A constant less than the number of elements of format k."""
        for x in subterms(t):
            if isinstance(x, tuple) and x and x[0] == 'call' and qualified(x[1])[1] == 'size' and x[2]:
                e = self.element(x[2][0])
                if e is not None and self.which(e[0]) == 'getVertexFormat' and e[1] == k and t[0] == 'p':
                    d = sconst(padd(t, A(t[1], x), -1))
                    return d is not None and d < 0
        return False

    def counter(self, t):
        return sconst(t) is not None or atom_of(t) is not None and atom_of(t)[0] == 'iv'

    def check_result_args(self, i, st, a):
        where = i.where()
        if 'failed' in st.bit:
            return
        d = st.bit.get('dangling:T07')
        self.note('T07:alive', 'until the result is made', 'violation' if d else 'ok', st, 'text that was handed over was %s at %s' % d
                  if d else '', where)
        if len(a) != 7:
            return self.note('T06:arguments', 'arguments', 'undecided', st, 'other form of resultFile()', where)
        for k, n in ((1, 'getVertexFormat'), (4, 'getVertexCount'), (5, 'getIndexType')):
            x = atom_of(a[k])
            acc = x is not None and x[0] == 'call' and qualified(x[1])[:2] == ('vfc::Converter', n)
            other = x is not None and x[0] == 'call' and qualified(x[1])[0] in ('ConfigFile', 'vfc::Converter') or sconst(a[k]) is not None
            if k == 4 and not acc and not other:
                # computed from sizes alone
                cs = {qualified(y[1])[1] for y in subterms(a[k]) if isinstance(y, tuple) and y and y[0] == 'call'}
                other = bool(cs & {'getVertices'}) and cs <= {'getVertices', 'size', 'operator[]', 'front', 'begin', 'at', 'end', 'back'}
            self.note('T06:arguments', n[3:], 'ok' if acc else 'violation' if other else 'undecided', st,
                      'the result gets %s' % show(a[k])[:60], where)
        # bounds
        b = st.bit.get('boundsof')
        pb = self.place(a[2])
        if b is not None:
            self.note('T06:arguments', 'bounds', 'ok' if b == pb else 'violation', st, 'other bounds are handed over', where)
        dn = st.bit.get(('done', 'getVertexFormat'))
        if dn is None:
            self.note('T06:bounds', 'complete', 'undecided', st, 'no loop over the output formats was found', where)
        elif dn[2]:
            self.note('T06:bounds', 'complete', 'violation', st, 'bounds may be missing', where)
        elif 'bounds of' in st.bit:
            self.note('T06:bounds', 'complete', 'violation', st, st.bit['bounds of'], where)
        elif 'all bounds' in dn[0] or '*' in dn[0] and 'all bounds' not in dn[1]:
            self.note('T06:bounds', 'complete', 'ok', st)
        elif 'all bounds' in dn[1] or 'bounds' in dn[1] or 'bounds' in dn[0]:
            self.note('T06:bounds', 'complete', 'violation', st, 'bounds may be missing for elements of the output format', where)
        else:
            self.note('T06:bounds', 'complete', 'undecided', st, 'bounds are not followed', where)
        # names of data
        vs = self.place(a[3])
        v = st.obj.get(vs)
        if not isinstance(v, Vec) or not self.local(vs):
            self.note('T06:data', 'vertex streams', 'undecided', st, 'the texts are not followed', where)
        else:
            self.complete('T06:data', 'getVertices', 'push %s' % (vs,), st, i, 'one text for each vertex stream')
            for q in v.labels or ():
                if not (isinstance(q, tuple) and q and q[0] == 'named'):
                    pass
        ix = self.place(a[6])
        v = st.obj.get(ix)
        if not isinstance(v, Vec) or not self.local(ix):
            self.note('T06:index', 'entries', 'undecided', st, 'the entries are not followed', where)
        else:
            self.complete('T06:index', 'getIndices', 'push %s' % (ix,), st, i, 'one entry for each index buffer')
        o = self.out_state(st)
        if o is not None and o.ne:
            self.complete('T08:all', 'getVertices', 'written', st, i, 'one file for each stream')
            self.complete('T08:all', 'getIndices', 'written', st, i, 'one file for each index buffer')


class DirFlow(MainFlow):
    """The recursive function that creates a directory and those above it."""

    def __init__(self, ws, X, dem):
        self.ws, self.raw, self.recursive, self.mkdirs = ws, X.raw, X.recursive, {dem}
        m = tmodule(ws, [('s|mkdir', dem)], keep=['^std::', '^path::', '^' + re.escape(dem)])
        Flow.__init__(self, Fn(m, 's|mkdir', pure=PUREM, track_args=True))
        self.found, self.sites, self._later, self.errfn = {}, {}, {}, {}
        self.outdir = self.indir = ('none',)

    def start(self):
        st = St()
        st.obj[(('arg', 0), 0)] = Str((('dir',),), 1, 0)
        return st

    def local(self, p):
        return p[0] != 't' and p[0][0] in ('alloca', 'arg')

    def parent(self, st, t):
        x = self.string(t, st) if not (atom_of(t) and atom_of(t)[0] == 'call') else self.text(t, st)
        return x.parts

    def forget(self, st):
        pass

    def leaf(self, i, val, st):
        f = self.cond_term(i)
        sup = self.B.support(f) if f is not None else ()
        if len(sup) == 1:
            a = self.B.atoms[next(iter(sup))]
            pol = 1 if f == self.B.var(a) else 0
            c = a if a[0] == 'call' else a[1] if a[0] == 'bool' else ('',)
            if c[0] == 'call' and re.search(r'std::operator[=!]=<char', c[1]):
                y = [self.parent(st, z) for z in c[2][:2]]
                eq = (val == pol) == ('operator==' in c[1])
                d = (('dir',),)
                if y in ([(('parent', d),), d], [d, (('parent', d),)]):
                    st.bit['root'] = eq
                    return [st]
        return super().leaf(i, val, st)

    def call(self, i, st):
        d = i['dem']
        a = self.args(i)
        where = i.where()
        if d in self.mkdirs:
            x = self.string(a[0], st).parts
            self.note('T05:directories', 'directory above', 'ok' if x == (('parent', (('dir',),)),) else 'undecided' if x is None else
                      'violation', st, 'the recursive call is for %s' % self.say(x), where)
            st.bit['rec'] = 1
            s2 = st.copy()
            st.env[i.id], s2.env[i.id] = 1, 0
            self.fail(s2, 'creating the directory above', i)
            return [st, s2]
        if d in ('mkdir', '_mkdir'):
            x = self.text(a[0], st).parts
            self.note('T05:directories', 'directory', 'ok' if x == (('dir',),) else 'undecided' if x is None else 'violation', st,
                      'the directory created is %s' % self.say(x), where)
            above = st.bit.get('rec') or any(isinstance(o, Str) and o.parts == () for o in st.obj.values())
            self.note('T05:directories', 'order', 'ok' if above else 'violation', st, 'the directories above are not created before', where)
            st.bit['made'] = 1
            # the directory exists, or: EACCES, ENOENT, ENOTDIR, ENOSPC, EMLINK, EROFS, ENAMETOOLONG, ELOOP, EDQUOT
            out = [st]
            for e in (17, 13, 2, 20, 28, 31, 30, 36, 40, 122):
                s2 = st.copy()
                s2.env[i.id] = (1 << 32) - 1
                s2.bit['errno'] = e
                if e != 17:
                    self.fail(s2, 'creating the directory', i)
                out.append(s2)
            st.env[i.id] = 0
            st.bit['errno'] = 0
            return out
        return super().call(i, st)

    def status(self, t, k, st):
        f = st.bit.get('failed')
        where = t.where()
        if k is None:
            return self.note('T05:directories', 'result', 'undecided', st, 'value is not known', where)
        if f is not None:
            return self.note('T05:directories', f[0] + ' fails', 'violation' if k else 'ok', st, 'this is not taken as failure', where)
        if not k:
            return self.note('T05:directories', 'result', 'violation', st, 'it fails although the directory was made or existed', where)
        self.note('T05:directories', 'result', 'ok' if st.bit.get('made') or st.bit.get('root') else 'violation', st,
                  'it succeeds without creating the directory', where)


class ArgFlow(MainFlow):
    """What main() does with its arguments until the configuration is loaded.  The number of arguments is fixed, each argument
    is a set of words: those that it may be, as far as comparisons told them apart."""
    OPTS = {'-h': 'help', '--help': 'help', '-i': 'input', '--input': 'input', '-o': 'output', '--output': 'output'}

    def __init__(self, X, n, words):
        self.ws, self.raw, self.recursive, self.mkdirs = X.ws, X.raw, X.recursive, set()
        self._shared = X
        for k in ('F', 'g', 'B', 'fn', 'm', 'header', '_args', '_terms', '_q', 'live'):
            setattr(self, k, getattr(X, k))
        self.steps, self.results = 0, []
        self.found, self.sites, self._later, self.errfn = {}, {}, X._later, {}
        self.outdir = self.indir = ('none',)
        self.n, self.words = n, words
        self.id0, self.id1 = (self.fn.args[k]['id'] for k in (0, 1))
        self.gone = []
        self.matchedw = set()

    def words_of(X):
        """Words that tell the options, and the literals that the program compares with, apart from others."""
        lits = set(ArgFlow.OPTS)
        for i in X.fn.all():
            if i.op in ('call', 'invoke') and (i['dem'] in ('strcmp', 'strncmp', 'strcasecmp', 'strncasecmp') or
                                               X.q(i)[1] in ('operator==', 'operator!=', 'compare')):
                for x in X.args(i):
                    s = string_of(X.m, x)
                    if s:
                        lits.add(s.decode('latin-1') if isinstance(s, bytes) else s)
        ws = set(lits) | {'config.json'}
        for x in lits:
            ws |= {x + 'x', x.upper(), x[:-1]} if len(x) < 12 else set()
        return frozenset(ws - {''})

    # ---- values
    def known(self, o, st):
        if o[0] == 'v':
            if o[1] == self.id0:
                return self.n
            if o[1] == self.id1:
                return ('argp', 0)
        return super().known(o, st)

    def compute(self, i, st):
        k = i.op
        w = width(i.get('ty') or '') or 64
        if k in ('add', 'sub', 'mul', 'shl'):
            a, b = self.known(i.ops[0], st), self.known(i.ops[1], st)
            if isinstance(a, int) and isinstance(b, int):
                return {'add': a + b, 'sub': a - b, 'mul': a*b, 'shl': a << b if b < w else 0}[k] & ((1 << w) - 1)
            if k == 'sub' and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'argp':
                return 8*(a[1] - b[1]) & ((1 << w) - 1)
            return None
        if k in ('sdiv', 'udiv', 'ashr', 'lshr'):
            a, b = self.known(i.ops[0], st), self.known(i.ops[1], st)
            if isinstance(a, int) and isinstance(b, int) and a >> (w - 1) == 0 and b:
                return a//b if k.endswith('div') else a >> b
            return None
        if k == 'getelementptr':
            b = self.known(i['base'], st)
            if isinstance(b, tuple) and b[0] == 'argp':
                off = i['off']
                for x, sc in i.get('idx', []):
                    v = self.known(x, st)
                    if not isinstance(v, int):
                        return None
                    xw = int(x[1]) if x[0] == 'i' else width(self.inst(x)['ty']) if self.inst(x) is not None else 32
                    off += sc*(v - (1 << xw) if v >> (xw - 1) else v)
                return ('argp', b[1] + off//8) if off % 8 == 0 else None
            if isinstance(b, tuple):
                return ('in', b) if b[0] == 'arg' else None
            return super().compute(i, st)
        if k == 'icmp':
            a, b = self.known(i.ops[0], st), self.known(i.ops[1], st)
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'argp':
                a, b = a[1] + 64, b[1] + 64
                return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ugt': a > b, 'ule': a <= b, 'uge': a >= b}[
                    i['pred'].replace('s', 'u') if i['pred'][0] == 's' else i['pred']])
            if isinstance(a, tuple) or isinstance(b, tuple):
                if 0 in (a, b) and i['pred'] in ('eq', 'ne'):
                    return int(i['pred'] == 'ne')
                return None
            return super().compute(i, st)
        return super().compute(i, st)

    def load(self, i, st):
        a = self.known(i.ops[0], st)
        if isinstance(a, tuple) and a[0] == 'argp':
            k = a[1]
            if k == self.n:
                return 0
            if not 0 <= k < self.n:
                self.note('T11:bounds', 'argument read', 'violation', st, 'argument %d of %d is read' % (k, self.n - 1), i.where())
                return None
            self.note('T11:bounds', 'argument read', 'ok', st)
            return ('arg', k)
        return super().load(i, st)

    def leaf(self, i, val, st):
        st.bit['imp'] = st.bit.get('imp') or 'a condition at %s' % i.where()
        return [st]

    def switch_case(self, t, val, others, st):
        st.bit['imp'] = st.bit.get('imp') or 'a condition at %s' % t.where()
        return [st]

    def forget(self, st):
        pass

    # ---- comparisons
    def which_word(self, st, k):
        return st.bit.get(('word', k), self.words)

    def compare(self, st, k, test, i, one, zero):
        """Split by a test on the word of argument k."""
        W = self.which_word(st, k)
        yes = frozenset(w for w in W if test(w))
        out = []
        for s, v in ((yes, one), (W - yes, zero)):
            if s:
                s2 = st.copy()
                s2.bit[('word', k)] = s
                s2.env[i.id] = v
                out.append(s2)
        return out

    def token(self, v, t, st):
        """Argument number of a C string."""
        if isinstance(v, tuple) and v[0] == 'arg':
            return v[1]
        x = self.text(t, st) if t is not None else None
        if x is not None and x.parts is not None and len(x.parts) == 1 and x.parts[0][0] == 'argv':
            return x.parts[0][1]
        return None

    def call(self, i, st):
        d = i['dem']
        c, n, p = self.q(i)
        a = self.args(i)
        v = [self.known(o, st) for o in i['args']]
        lit = lambda t: (lambda s: s.decode('latin-1') if isinstance(s, bytes) else s)(string_of(self.m, t))
        where = i.where()
        if d in ('strcmp', 'strcasecmp', 'strncmp', 'strncasecmp', 'strlen'):
            if 0 in v[:2] and len(v) > 1 or d == 'strlen' and v[0] == 0:
                self.note('T11:bounds', 'missing argument', 'violation', st, 'the argument after the last is used', where)
                return []
            if d == 'strlen':
                return [st]
            for x, y in ((0, 1), (1, 0)):
                k, s = self.token(v[x], a[x], st), lit(a[y])
                m = v[2] if len(v) > 2 else 1 << 20
                if k is not None and s is not None and isinstance(m, int):
                    f = (lambda z: z.lower()[:m]) if 'case' in d else (lambda z: z[:m])
                    return self.compare(st, k, lambda w: f(w) == f(s), i, 0, 'nz')
            return [st]
        if re.search(r'std::operator[=!]=<char', d) and len(a) == 2:
            eq = 'operator==' in d
            for x, y in ((0, 1), (1, 0)):
                o = self.string(a[x], st)
                s = lit(a[y])
                if s is None:
                    q = self.string(a[y], st) if self.local(self.place(a[y])) else UNK
                    s = '' if q.parts == () else q.parts[0][1] if q.parts is not None and len(q.parts) == 1 and q.parts[0][0] == 'lit' \
                        else None
                if s is None or o.parts is None:
                    continue
                if o.parts == ():
                    st.env[i.id] = int((s == '') == eq)
                    return [st]
                if len(o.parts) == 1 and o.parts[0][0] == 'argv':
                    return self.compare(st, o.parts[0][1], lambda w: w == s, i, int(eq), int(not eq))
            return [st]
        if basestr(c) and n == 'compare' and len(a) == 2:
            o = self.string(a[0], st)
            s = lit(a[1])
            if s is not None and o.parts is not None and len(o.parts) == 1 and o.parts[0][0] == 'argv':
                return self.compare(st, o.parts[0][1], lambda w: w == s, i, 0, 'nz')
            return [st]
        if basestr(c) and n in ('basic_string', 'operator=', 'assign') and len(a) > 1 and 'char const*' in split_params(p)[:1]:
            if v[1] == 0:
                self.note('T11:bounds', 'missing argument', 'violation', st, 'the argument after the last is used', where)
                return []
            if isinstance(v[1], tuple) and v[1][0] == 'arg' and (len(split_params(p)) == 1 or 'allocator' in split_params(p)[1]):
                self.put(self.place(a[0]), st, Str((('argv', v[1][1]),), 1, 0))
                return [st]
        if c == 'ConfigFile' and n == 'load':
            if 'istream' in p:
                src = ('stdin',) if self.root(i['args'][1]) == ('g', '_ZSt3cin') else None
            else:
                k = self.token(v[1], a[1], st)
                src = ('file', k) if k is not None else None
                if src is None and self.string(a[1], st).parts is not None and 'basic_string' in p:
                    x = self.string(a[1], st).parts
                    src = ('file', x[0][1]) if len(x) == 1 and x[0][0] == 'argv' else None
            self.outcome(st, ('go', src, {q: o.parts for q, o in st.obj.items() if isinstance(o, Str)}), where)
            return []
        return super().call(i, st)

    # ---- outcomes
    def status(self, t, k, st):
        self.outcome(st, ('ret', k, bool(st.bit.get('help') or st.bit.get('shownu')), bool(st.bit.get('rep'))), t.where())

    def spec(self, st, i=1, inp=None, out=None, seen=()):
        if i >= self.n:
            yield 'go', inp, out, seen
            return
        kinds = {}
        for w in sorted(self.which_word(st, i)):
            kinds.setdefault((self.OPTS.get(w), w if w in self.OPTS else None), w)
        for (k, _), w in sorted(kinds.items(), key=str):
            s = seen + (w,)
            if k == 'help':
                yield 'help', i, None, s
            elif k is None:
                yield 'unknown', i, None, s
            elif i + 1 >= self.n:
                yield 'missing', i, None, s
            else:
                yield from self.spec(st, i + 2, i + 1 if k == 'input' else inp, i + 1 if k == 'output' else out, s + ('...',))

    def outcome(self, st, got, where):
        for want in self.spec(st):
            kind, x, y, words = want
            for w in words:
                if w in self.OPTS:
                    self.matchedw.add(w)
            text = "for '%s'" % ' '.join(words)
            inst = {'go': 'options with arguments', 'help': 'help', 'unknown': 'unknown argument', 'missing': 'missing argument'}[kind]
            say = lambda s, d: self.note('T11:arguments', inst, s, st, d + ' ' + text, where)
            more = any('-h' in self.which_word(st, q) or '--help' in self.which_word(st, q) for q in range(1, self.n))
            if got[0] == 'ret' and got[1] is None:
                say('undecided', 'the status is not known')
            elif kind == 'go':
                if got[0] == 'ret':
                    say('violation', 'the configuration is not loaded but the tool ends with status %d' % got[1])
                    continue
                if got[1] is None:
                    say('undecided', 'where the configuration comes from is not known')
                elif got[1] != (('stdin',) if x is None else ('file', x)):
                    say('violation', 'the configuration is read from %s' % ('standard input' if got[1][0] == 'stdin' else 'argument %d' % got[1][1]))
                else:
                    say('ok', '')
                if not st.bit.get('imp'):
                    self.gone.append((y, got[2], text, where))
            elif got[0] == 'go':
                say('violation', 'the configuration is loaded')
            elif kind == 'help':
                if got[1] == 0:
                    say('ok' if got[2] else 'violation', 'nothing is printed')
                else:
                    say('undecided' if x + 1 < self.n else 'violation', 'the status is %d' % got[1])
            elif got[1] == 0:
                say('undecided' if more else 'violation', 'the status is 0')
            else:
                say('ok' if got[3] else 'violation', 'there is no message')


def arguments(X, r):
    """T11: every sequence of up to 5 arguments, told apart by the comparisons the program makes."""
    words = ArgFlow.words_of(X)
    found, gone = {}, []
    for n in range(1, 7):
        Y = ArgFlow(X, n, words)
        Y.run(Y.start())
        r.count('abstract states of blocks', Y.steps)
        gone += Y.gone
        for k, v in Y.found.items():
            if k not in found or WORSE[v[0]] > WORSE[found[k][0]]:
                found[k] = v
    for (rule, inst), (status, detail, where) in sorted(found.items()):
        if rule.startswith('T11:'):
            r.put(status, rule[4:], inst, detail if status != 'ok' else '', where)
    # the output directory
    places = set()
    for _, d, _, _ in gone:
        places |= set(d)
    fit = [p for p in places if all((d.get(p) == () if k is None else d.get(p) == (('argv', k),)) for k, d, _, _ in gone)]
    if not gone:
        r.und('arguments', 'output directory', 'no way to the configuration was found')
    elif fit and (X.outdir in fit or X.outdir == ('none',)):
        r.ok('arguments', 'output directory')
    elif X.outdir != ('none',):
        k, d, text, where = next(x for x in gone if x[1].get(X.outdir) != (() if x[0] is None else (('argv', x[0]),)))
        r.bad('arguments', 'output directory', 'the output directory is not the argument of --output %s' % text, where)
    else:
        r.und('arguments', 'output directory', 'no string holds the argument of --output')


# ---------------------------------------------------------------- checks
def main_flow(ws, r):
    if not hasattr(ws, '_mainflow'):
        X = MainFlow(ws, r)
        X.run(X.start())
        ws._mainflow = X
    X = ws._mainflow
    r.count('abstract states of blocks', X.steps)
    r.count('blocks of the inlined program', len(X.fn.blocks))
    r.count('calls', sum(1 for i in X.fn.all() if i.op in ('call', 'invoke')))
    return X


def emit(X, r, pid):
    for (rule, inst), (status, detail, where) in sorted(X.found.items()):
        p, n = rule.split(':')
        if rule == 'T06:bounds' and inst == 'complete' and status == 'violation' and \
                X.found.get((rule, 'arguments'), ('',))[0] == 'undecided':
            status = 'undecided'    # stored in a way that is not followed
        if p == pid:
            r.put(status, n, inst, detail if status != 'ok' else '', where)


def t05(ws, r):
    X = main_flow(ws, r)
    for d in sorted(X.mkdirs):
        D = DirFlow(ws, X, d)
        D.run(D.start())
        emit(D, r, 'T05')
        r.count('recursive functions')
    emit(X, r, 'T05')
    r.need('status', 14)
    r.need('message', 14)


def t08(ws, r):
    X = main_flow(ws, r)
    emit(X, r, 'T08')
    for rule, n in (('only', 3), ('inside', 1), ('distinct', 1), ('contents', 1), ('replace', 1), ('all', 2)):
        r.need(rule, n)


def divisions(X, r):
    """No division by a value that is 0 on a way to it."""
    g, B = X.g, X.g.B
    for bb in X.fn.blocks:
        for i in X.fn.bb[bb]:
            if i.op not in ('udiv', 'sdiv', 'urem', 'srem'):
                continue
            l = g.loop_of[bb]
            d = g.term(i.ops[1], l)
            c = g.cond(bb)
            bad = None
            for k, t in d[1] if d[0] == 'ite' else [(1, d)] if d[0] == 'p' else []:
                if c is None or B.AND(c, k) == 0:
                    continue
                if pconst(t) == 0:
                    bad = 'divides by 0'
                for x in subterms(t):
                    # the size of an index is 0 without indices
                    if isinstance(x, tuple) and x and x[0] == 'call' and qualified(x[1])[:2] == ('vfc', 'indexSize') and x[2]:
                        none = g.cmp('eq', x[2][0], K(x[2][0][1], 0)) if x[2][0][0] == 'p' else None
                        ck = B.AND(c, k)
                        if none is None or B.AND(ck, none) != 0 and ck != 1 and not B.support(none) & B.support(ck):
                            bad = bad or '?'
                        elif B.AND(ck, none) != 0:
                            bad = 'divides by the size of an index when there are no indices'
            inst = '%s by %s' % (i.op, show(d)[:40])
            if bad:
                r.put('undecided' if bad == '?' else 'violation', 'division', inst, bad, i.where())
            elif d[0] == 'p' and pconst(d):
                pass
            else:
                r.put('ok', 'division', inst, '', i.where())


def t09(ws, r):
    X = main_flow(ws, r)
    emit(X, r, 'T09')
    divisions(X, r)
    for rule, n in (('complete', 2), ('origin', 5), ('prefix', 2), ('sizes', 4)):
        r.need(rule, n)


def t10(ws, r):
    X = main_flow(ws, r)
    emit(X, r, 'T10')
    r.need('alive', 2)


def t11(ws, r):
    X = main_flow(ws, r)
    emit(X, r, 'T11')
    arguments(X, r)
    r.need('input', 2)
    r.need('arguments', 5)
    r.need('bounds', 1)


def t06(ws, r):
    X = main_flow(ws, r)
    emit(X, r, 'T06')
    for rule, n in (('arguments', 4), ('bounds', 2), ('data', 3), ('index', 3)):
        r.need(rule, n)


def t07(ws, r):
    X = main_flow(ws, r)
    emit(X, r, 'T07')
    r.need('alive', 2)
