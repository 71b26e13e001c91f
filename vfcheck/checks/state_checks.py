"""V13, V14: hidden state and lifetimes."""
import os, re, subprocess
from ..build import AnalysisError, REPO
from ..ir import Module
from ..effects import Mut, params, readonly_type
from ..lib import *
from ..terms import *
from . import convert_checks as vc
from .convert_checks import guard

RAW = dict(spec=[], keep=[r'.'], inline=[], roots=[], unroll=0, post='function(sroa,early-cse,simplifycfg)', emit=['.'],
           allglobals=True)
INIT = re.compile(r'^(__cxx_global_var_init|_GLOBAL__sub_I_)')
SYSTEM = re.compile(r'^(std::|__gnu|guard variable|vtable|typeinfo|construction vtable|VTT|__dso_handle|__ioinit|llvm\.)')


def in_repo(f):
    """Defined in the sources under analysis."""
    p = os.path.normpath(f.d.get('file', '') or '')
    if not p.startswith('/'):
        p = os.path.join(REPO, p)
    return p.startswith(REPO + '/')


def uses_global(i, g):
    if any(o and o[0] == 'g' and o[1] == g for o in list(i.d.get('ops', [])) + list(i.d.get('args', [])) +
           [i.d.get('base', [''])] + [x for x, _ in i.d.get('in', [])] + [x for x, _ in i.d.get('idx', [])]):
        return True
    return False


def once(f, g):
    """(instructions that run once to initialise the local static g, the guard): None without one."""
    for i in f.calls():
        if i.get('callee') == '__cxa_guard_acquire':
            a = i['args'][0]
            if a[0] == 'g' and a[1] == '_ZGV' + g[2:]:
                t = f.term(i.bb)
                if t.op != 'br' or len(f.succ[i.bb]) != 2:
                    return None
                rel = [x for x in f.calls() if x.get('callee') in ('__cxa_guard_release',) and x['args'][0] == a]
                out = set()
                for s in f.succ[i.bb]:
                    # the side that releases the guard
                    if not any(f.dominates(s, x.bb) for x in rel):
                        continue
                    for b in f.blocks:
                        if f.dominates(s, b):
                            for x in f.bb[b]:
                                if not any(f.idominates(y, x) for y in rel):
                                    out.add(x)
                return out
    return None


def c_v13(ws, r):
    m = Module(ws.ir(lib_srcs(ws), **RAW))
    mut = Mut(m)
    wrap = lambda f: f.dem.startswith('vfw_')
    n = 0
    for g in m.globals.values():
        if g['const'] or g['decl'] or SYSTEM.match(g['dem']) or g['name'].startswith(('.str', '_ZGV', '_ZTV', '_ZTI', 'llvm.')):
            continue
        n += 1
        r.count('variables')
        name = g['dem']
        at = '%s:%s' % (g.get('file', '?').replace(REPO + '/', ''), g.get('line', '?'))
        bad, und, ok = [], [], 0
        if g['tls']:
            und.append((None, 'thread local'))
        returning = {}
        work = [f for f in m.funcs.values() if any(uses_global(i, g['name']) for i in f.all())]
        done = {}
        while work:
            f = work.pop()
            if INIT.match(f.name) or INIT.match(f.dem):
                continue
            skip = once(f, g['name']) or ()
            if skip:
                # what it is initialised with must not depend on the call that comes first
                for x in skip:
                    for o in list(x.d.get('ops', [])) + list(x.d.get('args', [])) + [x.d.get('base', [''])]:
                        if o and o[0] == 'v':
                            if any(a['id'] == o[1] for a in f.args):
                                bad.append((x, 'is initialised with an argument of the call that happens to come first', True))
                            else:
                                d = f.insts.get(o[1])
                                if d is not None and d not in skip and d.op != 'alloca':
                                    bad.append((x, 'is initialised with a value of the call that happens to come first', True))
            calls = {i.id for i in f.calls() if i.get('callee') in returning}
            res = mut.flow(f, {}, seedcalls=calls, glob=g['name'], skip=skip)
            for i, p, chain in res.writes:
                (bad if p else und).append((i, 'may be changed', p))
            for i, what in res.unknown:
                und.append((i, what))
            ok += sum(1 for i in f.all() if uses_global(i, g['name']))
            if res.returns is not None and f.name not in returning:
                returning[f.name] = res.returns
                work += [x for x in m.funcs.values() if any(c.get('callee') == f.name for c in x.calls())]
        if bad:
            for i, what, *_ in bad[:3]:
                r.bad('unchanged', name, 'variable outside of all objects %s in %s' % (
                    'is changed' if what == 'may be changed' else what, i.fn.dem.split('(')[0]), i.where())
        elif und:
            r.und('unchanged', name, und[0][1], und[0][0].where() if und[0][0] else at)
        else:
            r.ok('unchanged', name, '%d uses only read it after its initialisation' % ok, at)
    r.need('unchanged', 4)
    # functions that do not modify an object by their signature
    for f in m.funcs.values():
        if not f.dem.startswith('vfc::') or wrap(f):
            continue
        p = params(f.dem)
        if p is None:
            continue
        ps, const, nm = p
        if '~' in nm:
            continue
        off = len(f.args) - len(ps)
        sret = sum(1 for a in f.args if a.get('sret'))
        if off - sret not in (0, 1):
            continue
        r.count('functions')
        targets = []
        if const and off - sret == 1:
            targets.append((sret, 'this'))
        for k, t in enumerate(ps):
            if readonly_type(t) and f.args[off + k]['ty'] == 'ptr':
                targets.append((off + k, 'argument %d' % (k + 1)))
        for k, what in targets:
            res = mut.func(f, k, 'D')
            inst = '%s %s' % (nm.replace('vfc::', ''), what)
            bad = [w for w in res.writes if w[1]]
            if bad:
                i, _, chain = bad[0]
                last = chain[-1] if chain else i
                r.bad('not-modified', inst, 'modifies what it only takes to read' + (
                    ', through ' + ' -> '.join(dict.fromkeys(short_name(x.fn.dem) for x in chain)) if chain else ''), i.where())
            elif res.writes or res.unknown:
                i = (res.writes or res.unknown)[0]
                r.und('not-modified', inst, str(i[1]) if not res.writes else 'may be modified', i[0].where())
            else:
                r.ok('not-modified', inst, '', f.dem)
    r.need('not-modified', 30)


def short_name(d):
    return d.split('(')[0][-60:]


# ------------------------------------------------------------------ V14
WITNESS = [
    ('Converter cannot be copied', '!std::is_copy_constructible<vfc::Converter>::value'),
    ('Converter cannot be assigned', '!std::is_copy_assignable<vfc::Converter>::value'),
    ('Converter can be moved', 'std::is_move_constructible<vfc::Converter>::value'),
    ('Converter can be move assigned', 'std::is_move_assignable<vfc::Converter>::value'),
    ('vertices are read only', 'std::is_same<decltype(std::declval<vfc::Converter&>().getVertices()), '
     'const std::vector<std::vector<std::uint8_t>>&>::value'),
    ('indices are read only', 'std::is_same<decltype(std::declval<vfc::Converter&>().getIndices()), '
     'const std::vector<vfc::IndexData>&>::value'),
    ('output formats are read only', 'std::is_same<decltype(std::declval<vfc::Converter&>().getVertexFormat()), '
     'const std::vector<vfc::VertexFormat>&>::value'),
    ('more streams move the earlier ones', 'std::is_nothrow_move_constructible<vfc::Converter::VertexStream>::value || '
     '!std::is_copy_constructible<vfc::Converter::VertexStream>::value'),
]


def witness(ws, r):
    """static_asserts about the types, decided by the compiler."""
    for k, (what, cond) in enumerate(WITNESS):
        p = os.path.join(ws.dir, 'witness%d.cpp' % k)
        with open(p, 'w') as f:
            f.write('#include <VFC/Converter.h>\n#include <type_traits>\n#include <utility>\n'
                    'static_assert(%s, "WITNESS");\n' % cond)
        x = subprocess.run(['clang++'] + ws.flags + ['-fno-access-control', '-fsyntax-only', '-w', p], capture_output=True, text=True)
        if x.returncode == 0:
            r.ok('type', what, cond)
        elif 'WITNESS' in x.stderr:
            r.bad('type', what, 'static_assert(%s) fails' % cond, 'lib/include/VFC/Converter.h')
        else:
            r.und('type', what, 'witness does not compile: ' + x.stderr.split('error:')[-1].strip().splitlines()[0])
    r.need('type', len(WITNESS))


MEMBERS = {vc.STREAMS: 'm_vertexStreams', vc.MAP: 'm_elementMapping', vc.VERTS: 'm_vertices', vc.INDS: 'm_indices',
           vc.IDATA: 'm_indexData'}
HOLDS = {vc.STREAMS: 'm_elementMapping refers to elements of the original', vc.INDS: 'm_indexData points into the original'}


def moves(ws, r):
    m = module(ws, [('move', 'vfw_move', {}), ('assign', 'vfw_moveAssign', {})])
    if not vc.layout_ok(m):
        raise AnalysisError('members of Converter are laid out differently than the rules expect')
    for n, what in (('move', 'move constructor'), ('assign', 'move assignment')):
        F = Fn(m, n)
        dst, src = F.arg(0), F.arg(1)
        got = {}
        for i, c in F.calls():
            d = i.get('dem', '')
            mm = re.match(r'.*std::vector<.*>::(vector|operator=|swap|_M_move_assign|_M_swap_data)\((.*)\)', d)
            if not mm:
                continue
            a = F.g.args(i)
            if len(a) < 2:
                continue
            for off, name in MEMBERS.items():
                if a[0] == padd(dst, K(64, off)):
                    got.setdefault(off, []).append((i, c, mm.group(1), d, a[1]))
        for off, name in MEMBERS.items():
            r.count('members moved')
            inst = '%s %s' % (what, name)
            x = got.get(off, [])
            mv = [e for e in x if e[1] == 1 and e[4] == padd(src, K(64, off)) and
                  ('&&' in e[3].split('::')[-1] or '&&' in e[3] or e[2] == 'swap')]
            cp = [e for e in x if e[4] == padd(src, K(64, off)) and '&&' not in e[3] and e[2] in ('vector', 'operator=')
                  and ' const&' in e[3]]
            if mv and not cp:
                r.ok('moved', inst, '', mv[0][0].where())
            elif cp and off in HOLDS:
                r.bad('moved', inst, 'is copied, but ' + HOLDS[off], F.where())
            else:
                r.und('moved', inst, 'how it is taken over is not understood', F.where())


def elements_alive(ws, r):
    m = module(ws, [('add|%d' % t, vc.ADDSTREAM, {4: t}, {0: {vc.PRIM: 3}}) for t in range(3)],
               keep=['::logError', '^vfc::VertexFormat::find\\(char', '^vfc::isVertexCountValid'])
    for t in range(3):
        F = Fn(m, 'add|%d' % t, pure=[vc.COUNTVALID, vc.FIND], member_sizes=[(lambda d: vc.VECM.match(d), 24)],
               regions=[(o, 24) for o in (vc.FMT, vc.STREAMS, vc.MAP, vc.VERTS, vc.INDS, vc.IDATA)],
               readonly=[lambda d: 'logError' in d])
        g = F.g
        this, new = F.arg(0), F.arg(1)
        name = vc.ITYPES[t]
        # how the format gets into the streams
        pushes = []
        for i, c in F.calls():
            mm = vc.MUTV.match(i.get('dem', ''))
            a = g.args(i) if i['args'] else []
            if not mm or not a or mm.group(1) in ('~vector', 'reserve'):
                continue
            if root_off(a[0])[0] == this:
                off = root_off(a[0])[1]
                if off in (vc.VERTS, vc.INDS, vc.IDATA) and mm.group(1) != 'vector':
                    r.bad('output-unchanged', '%s %s' % (name, MEMBERS[off]), 'changed while a stream is added', i.where())
                elif a[0] == padd(this, K(64, vc.STREAMS)):
                    if mm.group(1) in ('push_back', 'emplace_back') and len(a) == 2:
                        pushes.append((i, a[1]))
                    else:
                        r.und('element-alive', name, 'streams are changed by ' + mm.group(1), i.where())
        r.ok('output-unchanged', name)
        ctors = [(x, g.args(x)) for x, _ in F.calls() if x['args'] and len(x['args']) == 2 and
                 re.match(r'.*std::vector<vfc::VertexElement.*>::(vector|operator=)\(', x.get('dem', ''))]
        n = 0
        for i, c in vc.effects(g):
            if i.op != 'store':
                continue
            l = g.loop_of[i.bb]
            pt, v = g.term(i.ops[1], l), g.term(i.ops[0], l)
            if pt[0] != 'p' or not any(x == ('ld', 'i64', padd(this, K(64, vc.MAP))) for x in subterms(pt)):
                continue
            if sum(cc for k, cc in pt[2] if k == ()) != 8:
                continue
            n += 1
            inst = '%s line %s' % (name, i.loc().split(':')[-1])
            finds = [x for x in subterms(v) if x[0] == 'call' and vc.FIND(x[1])]
            lds = [x for x in subterms(v) if x[0] == 'ld' and x[2] == new]
            if not (finds and all(f[2][0] == new for f in finds)) and not lds:
                r.und('element-alive', inst, 'refers to ' + show(v), i.where())
                continue
            if not pushes:
                r.und('element-alive', inst, 'stream is added in a way that is not understood', i.where())
                continue
            for pi, pa in pushes:
                pl = '%s into the streams' % inst
                src = padd(pa, K(64, 16))
                hops, ok = 0, None
                while hops < 6 and src != new:
                    hops += 1
                    cs = [(x, a) for x, a in ctors if a[0] == src and g.fn.dominates(x.bb, pi.bb)]
                    if len(cs) != 1:
                        ok = 'und'
                        break
                    if '&&' not in cs[0][0]['dem']:
                        ok = cs[0][0]
                        break
                    src = cs[0][1][1]
                d = pi['dem']
                if ok == 'und':
                    r.und('element-alive', pl, 'where the format comes from is not understood', pi.where())
                elif ok is not None:
                    r.bad('element-alive', pl, 'the mapping refers to elements of the argument, but the stream keeps a copy '
                          'of the format', ok.where())
                elif '::push_back(' in d and 'const&)' in d or '::emplace_back<' in d and ('const&>' in d or '&>(' in d and '&&>(' not in d):
                    r.bad('element-alive', pl, 'the mapping refers to elements of the argument, but the stream is copied', pi.where())
                elif '&&' in d:
                    r.ok('element-alive', pl, 'the storage of the elements is moved', pi.where())
                else:
                    r.und('element-alive', pl, d[:100], pi.where())
        if not n:
            r.und('element-alive', name, 'references to elements not found')
    r.need('element-alive', 3)


def c_v14(ws, r):
    witness(ws, r)
    guard(r, 'moved', 'Converter', lambda: moves(ws, r))
    guard(r, 'element-alive', 'addVertexStream', lambda: elements_alive(ws, r))
    for C in vc.convs(ws, r, prims=(3, 4), types=(1, 2)):
        guard(r, 'pointer', C.name, lambda: vc.pointers(r, C))
    guard(r, 'output-unchanged', 'setElementTransform', lambda: setters(ws, r))


def setters(ws, r):
    """Members other than the conversion leave the output alone."""
    names = ['vfw_setTransform', 'vfw_setTransformN']
    m = module(ws, [('s|' + k, k, {}) for k in names], keep=['^vfc::VertexFormat::find\\(char'])
    for k in names:
        F = Fn(m, 's|' + k, [vc.FIND], member_sizes=[(lambda d: vc.VECM.match(d), 24)])
        g = F.g
        for i, c in vc.effects(g):
            l = g.loop_of[i.bb]
            t = g.term(i.ops[1], l) if i.op == 'store' else g.args(i)[0] if i.d.get('args') else None
            if t is None or t[0] != 'p':
                continue
            b, off = root_off(t)
            if b == F.arg(0) and any(o <= off < o + 24 for o in (vc.VERTS, vc.INDS, vc.IDATA)) and (
                    i.op == 'store' or vc.MUTV.match(i.get('dem', '')) and ' const' not in i['dem'].split(')')[-1]):
                r.bad('output-unchanged', k, 'changes the output', i.where())
        r.ok('output-unchanged', k)
