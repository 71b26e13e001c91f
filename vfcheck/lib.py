"""Summaries of library functions."""
import os, re
from .build import AnalysisError
from .ir import Module
from .terms import *
from .canon import Canon

VEC = (r'std::vector<[^()]*>::(push_back|emplace_back|insert|resize|reserve|clear|_M_(realloc|insert|range|fill|default|'
       r'emplace|assign|append|erase|create|allocate|deallocate)[a-z_]*|vector|~vector|operator=|erase|pop_back|assign|swap|'
       r'shrink_to_fit|emplace|_S_[a-z_]+)(<[^()]*>)?\(')
HASH = [r'^std::(unordered_|__)?(set|map|hash)[^(]*::(insert|emplace|clear|find|count|erase|unordered_set|~unordered_set)[(<]',
        r'std::unordered_(set|map)<.*>::[a-z_~]+[(<]', '_Hashtable']
STR = [r'^std::__cxx11::basic_string<[^()]*>::[^()]*\(', r'basic_string<.* std::operator\+', r'std::operator(==|!=|<)<char',
       r'^(bool|_?[a-z:_]*) ?std::operator(==|!=)<char']
BASE = [VEC, 'operator delete', 'operator new', 'std::function<'] + HASH + STR

POST = 'function(sroa,early-cse,simplifycfg,instsimplify)'
FINAL = 'function(sroa,early-cse,sccp,simplifycfg,instsimplify,loop-simplify)'

WRAP = r'''
#include <VFC/Converter.h>
#include <VFC/IndexData.h>
#include <VFC/VertexFormat.h>
#include <VFC/VertexValue.h>
#include <utility>
using namespace vfc;
extern "C" {
std::uint32_t vfw_getIndex(IndexType t, const void* d, std::size_t i, std::uint32_t v) {return getIndexValue(t, d, i, v);}
bool vfw_setIndex(IndexType t, void* d, std::size_t i, std::uint32_t v) {return setIndexValue(t, d, i, v);}
unsigned vfw_indexSize(IndexType t) {return indexSize(t);}
std::uint32_t vfw_maxIndex(IndexType t) {return maxIndexValue(t);}
std::uint32_t vfw_restartIndex(IndexType t) {return primitiveRestartIndexValue(t);}
std::uint32_t vfw_getIndexDefault(IndexType t, const void* d, std::size_t i) {return getIndexValue(t, d, i);}
bool vfw_validCount(PrimitiveType p, std::uint32_t n, unsigned k) {return isVertexCountValid(p, n, k);}
bool vfw_validElement(ElementLayout l, ElementType t) {return isElementValid(l, t);}
std::uint32_t vfw_layoutSize(ElementLayout l) {return elementLayoutSize(l);}
const char* vfw_layoutName(ElementLayout l, bool c) {return elementLayoutName(l, c);}
const char* vfw_typeName(ElementType l) {return elementTypeName(l);}
const char* vfw_primName(PrimitiveType l) {return primitiveTypeName(l);}
ElementLayout vfw_layoutFrom(const char* s) {return elementLayoutFromName(s);}
ElementType vfw_typeFrom(const char* s) {return elementTypeFromName(s);}
PrimitiveType vfw_primFrom(const char* s) {return primitiveTypeFromName(s);}
void vfw_clear(VertexFormat& f) {f.clear();}
bool vfw_fmtEq(const VertexFormat& a, const VertexFormat& b) {return a == b;}
bool vfw_fmtNe(const VertexFormat& a, const VertexFormat& b) {return a != b;}
bool vfw_elEq(const VertexElement& a, const VertexElement& b) {return a == b;}
bool vfw_elNe(const VertexElement& a, const VertexElement& b) {return a != b;}
std::uint32_t vfw_stride(const VertexFormat& f) {return f.stride();}
std::size_t vfw_size(const VertexFormat& f) {return f.size();}
bool vfw_empty(const VertexFormat& f) {return f.empty();}
void vfw_expand(const VertexValue& v, VertexValue& a, VertexValue& b) {v.expandBounds(a, b);}
void vfw_value(VertexValue* v) {new (v) VertexValue();}
void vfw_format(VertexFormat* v) {new (v) VertexFormat();}
bool vfw_valEq(const VertexValue& a, const VertexValue& b) {return a == b;}
bool vfw_isValid(const Converter& c) {return c.isValid();}
std::uint32_t vfw_vertexCount(const Converter& c) {return c.getVertexCount();}
Converter::Transform vfw_getTransform(const Converter& c, std::size_t s, std::size_t e) {return c.getElementTransform(s, e);}
void vfw_setTransform(Converter& c, std::size_t s, std::size_t e, Converter::Transform t) {c.setElementTransform(s, e, t);}
Converter::Transform vfw_getTransformN(const Converter& c, const char* n) {return c.getElementTransform(n);}
bool vfw_setTransformN(Converter& c, const char* n, Converter::Transform t) {return c.setElementTransform(n, t);}
void vfw_getBounds(const Converter& c, VertexValue& a, VertexValue& b, std::size_t s, std::size_t e)
{c.getVertexElementBounds(a, b, s, e);}
bool vfw_getBoundsN(const Converter& c, VertexValue& a, VertexValue& b, const char* n)
{return c.getVertexElementBounds(a, b, n);}
const void* vfw_vertexFormats(const Converter& c) {return &c.getVertexFormat();}
const void* vfw_vertices(const Converter& c) {return &c.getVertices();}
const void* vfw_indices(const Converter& c) {return &c.getIndices();}
IndexType vfw_indexType(const Converter& c) {return c.getIndexType();}
PrimitiveType vfw_primType(const Converter& c) {return c.getPrimitiveType();}
unsigned vfw_patchPoints(const Converter& c) {return c.getPatchPoints();}
void vfw_move(void* p, Converter& c) {new (p) Converter(std::move(c));}
void vfw_moveAssign(Converter& p, Converter& c) {p = std::move(c);}
std::uint32_t vfw_maxIndexValue(const Converter& c) {return c.getMaxIndexValue();}
}
'''


def lib_srcs(ws):
    p = os.path.join(ws.dir, 'wrap.cpp')
    if not os.path.exists(p):
        with open(p, 'w') as f:
            f.write('#include <new>\n' + WRAP)
    return ws.lib_sources() + [p]


def module(ws, specs, keep=(), unroll=8, srcs=None, **kw):
    """specs: (name, function, {arg: const}, {arg: {offset: const}})."""
    sp = [dict(fn=f, name=n, args={str(k): v for k, v in a.items()},
               fields={str(k): {str(o): c for o, c in fl.items()} for k, fl in (x[0] if x else {}).items()})
          for n, f, a, *x in specs]
    kw.setdefault('post', POST)
    kw.setdefault('final', FINAL)
    d = ws.ir(srcs or lib_srcs(ws), spec=sp, keep=list(BASE) + list(keep), inline=kw.pop('inline', []), roots=[],
              unroll=unroll, **kw)
    return Module(d)


def rets(g):
    """[(condition, term)] of the function's returns."""
    out = []
    for b in g.fn.rpo():
        t = g.fn.term(b)
        if t.op == 'ret':
            out.append((g.full(b), g.term(t.ops[0], g.loop_of[b]) if t.ops else None, t))
    return out


def retval(g):
    """The return value as one term."""
    rs = rets(g)
    if not rs:
        return None
    if len(rs) == 1:
        return rs[0][1]
    return g.mkite([(c, t) for c, t, _ in rs])


def retloc(g):
    rs = rets(g)
    return where(g, rs[0][2]) if rs else g.fn.dem


def where(g, ins):
    return ins.where()


def effects(g, calls=True):
    """Stores to non-local memory and calls, each with its condition."""
    out = []
    for i in g.effects():
        if i.op == 'ret':
            continue
        if i.op == 'store':
            b, _ = g.abase(i.ops[1])
            if b is not None and b[0] == 'alloca':
                continue
        out.append((i, g.full(i.bb)))
    return out


# ------------------------------------------------------------------ summaries against specifications
def atom_of(t):
    return patom(t) if t[0] == 'p' else None


def _args(*names):
    return [lambda d, n=n: n in d for n in names]


IS_STREQ = lambda d: 'std::operator==<char' in d
IS_STRCMP = lambda d: '::compare(' in d and 'basic_string' in d or d in ('strcmp',)
IS_CSTR = lambda d: 'basic_string' in d and ('::c_str()' in d or '::data()' in d)
STRPURE = [IS_STREQ, IS_STRCMP, IS_CSTR, lambda d: d in ('strcasecmp', 'strlen', 'strncmp', 'strncasecmp', 'tolower', 'toupper'),
           lambda d: 'basic_string' in d and re.search(r'::(size|length|empty)\(\)', d)]


class Fn:
    """A function's summary and its comparison with a specification."""

    def __init__(self, m, name, pure=(), extra=(), calls=None, leaf=None, **kw):
        self.m = m
        f = m.funcs.get(name)
        if f is None:
            raise AnalysisError('%s not found' % name)
        self.f = f
        self.pure = list(STRPURE) + list(pure)
        self.g = GFun(m, f, pure=self.pure, **kw)
        self.B = self.g.B
        self.c = Canon(self.g, calls=calls or self.pure, leaf=leaf, extra=set(extra))
        self.c.rec = lambda t: t

    def arg(self, i, w=64):
        return A(w, ('arg', i))

    def ld(self, base, off=0, ty='i64'):
        a = padd(base, K(64, off))
        return self.g.initial(a, ty)

    def where(self):
        return retloc(self.g)

    def ret(self):
        return retval(self.g)

    def streq(self, x):
        """Calls that compare strings as one predicate, whichever overload is used."""
        k = x[0]

        def strip(t):
            a = atom_of(t)
            while a is not None and a[0] == 'call' and IS_CSTR(a[1]):
                t = a[2][0]
                a = atom_of(t)
            return t

        def pair(a):
            return ('sym', 'streq', tuple(sorted((strip(a[2][0]), strip(a[2][1])), key=skey)))
        if k == 'bool' and x[1][0] == 'call' and IS_STREQ(x[1][1]):
            return pair(x[1])
        if k == 'call' and IS_STREQ(x[1]):
            return pair(x)
        if k == 'ltc' and x[2] == 1:
            a = atom_of(x[1])
            if a is not None and a[0] == 'call' and IS_STRCMP(a[1]) and len(a[2]) == 2:
                return pair(a)
        return None

    def canonb(self, n):
        return self.c.bsubst(n, self._streq)

    def canont(self, t):
        return self.c.subst(t, self._streq)

    @property
    def _streq(self):
        if not hasattr(self, '_sf'):
            self._sf = lambda x: self.streq(x)
        return self._sf

    def nameeq(self, a, b):
        return self.B.var(('sym', 'streq', tuple(sorted((a, b), key=skey))))

    def EX(self, trip, body):
        return self.B.var(('EX', trip, body)) if body else 0

    def final(self, addr, ty):
        """Memory at addr when the function returns."""
        vs = []
        for c, _, i in rets(self.g):
            vs.append((c, self.g.value_before(addr, ty, i, self.g.loop_of[i.bb])))
        return vs[0][1] if len(vs) == 1 else self.g.mkite(vs)

    def stores(self, roots=None):
        """Stores to memory that the caller sees."""
        return [(i, c) for i, c in effects(self.g) if i.op == 'store']

    def calls(self):
        return [(i, c) for i, c in effects(self.g) if i.op in ('call', 'invoke')]


def vecsize(F, base, sz, off=0):
    """Number of elements of the vector at base+off."""
    return F.g.divterm('div', padd(F.ld(base, off + 8), F.ld(base, off), -1), K(64, sz))


def putb(r, F, rule, inst, f, spec, under=1, where=''):
    s, d = F.c.beq(F.canonb(f), F.canonb(spec), F.canonb(under))
    r.put(s, rule, inst, d, where or F.where())
    return s


def putt(r, F, rule, inst, t, spec, under=1, where=''):
    if t is None:
        r.und(rule, inst, 'no value')
        return 'undecided'
    s, d = F.c.teq(F.canont(t), F.canont(spec), F.canonb(under))
    r.put(s, rule, inst, d, where or F.where())
    return s


def global_bytes(m, name, off, n):
    g = m.globals.get(name)
    if not g or 'hex' not in g:
        return None
    b = bytes.fromhex(g['hex'])[off:off + n]
    return b if len(b) == n else None


def string_of(m, t):
    """The C string that a term points at."""
    if t[0] != 'p':
        return None
    r, off = root_off(t)
    a = patom(r)
    if a is None or a[0] != 'glob':
        return None
    return m.string(['g', a[1], off])
