"""T13: the help text names everything that the tool accepts.

Names printed by loops are found as intervals of arguments of the functions that return names; all other names are
looked up in the text that is printed on standard output."""
import re
from ..flow import *
from ..lib import *
from ..terms import *
from ..ir import Module
from . import state_checks as sc
from .config_checks import tmodule
from .main_checks import MainFlow, PUREM
from .tool_checks import tool_srcs

OPTIONS = [('-h', '--help'), ('-i', '--input'), ('-o', '--output')]
MEMBERS = ['vertexFormat', 'name', 'layout', 'type', 'indexType', 'primitiveType', 'patchPoints', 'vertexStreams', 'vertexData',
           'indexData', 'vertexTransforms', 'transform']
RESULT = ['vertices', 'vertexFormat', 'name', 'layout', 'type', 'offset', 'minValue', 'maxValue', 'vertexStride', 'vertexData',
          'vertexCount', 'indexType', 'indexBuffers', 'indexCount', 'baseVertex', 'indexData']
ENUMS = [('layouts', 'vfc::ElementLayout', 'elementLayoutName'), ('types', 'vfc::ElementType', 'elementTypeName'),
         ('primitive types', 'vfc::PrimitiveType', 'primitiveTypeName'), ('index types', 'vfc::IndexType', None),
         ('transforms', 'vfc::Converter::Transform', None)]
NONE = {'Invalid', 'NoIndices'}          # stand for a name that is not accepted


class Program:
    """main with everything that prints text inlined."""
    stdio = MainFlow.stdio
    inst = MainFlow.inst

    def __init__(self, ws):
        raw = Module(ws.ir(tool_srcs(ws), **sc.RAW))
        rec = {f.dem for f in raw.funcs.values() if sc.in_repo(f) and
               any(i.op in ('call', 'invoke') and i['dem'] == f.dem for i in f.all())}
        self.m = tmodule(ws, [('s|main', 'main')], keep=['^std::', '^ConfigFile::', '^vfc::', '^base64::', '^path::', '^resultFile',
                                                         '^operator'] + ['^' + re.escape(d) for d in rec])
        F = Fn(self.m, 's|main', pure=PUREM, track_args=True)
        self.g, self.fn = F.g, F.g.fn


def printed(X):
    """Text that calls print on standard output, in the order of the program."""
    out = []
    for bb in X.fn.blocks:
        for i in X.fn.bb[bb]:
            if i.op not in ('call', 'invoke') or not i.get('dem'):
                continue
            ops = i['args']
            n = i['dem'].split('(')[0]
            if n in ('fprintf', 'fputs', 'fwrite', 'putc', 'fputc'):
                if X.stdio(ops[1 if n in ('fputs', 'fputc', 'putc') else 3 if n == 'fwrite' else 0]) != 'stdout':
                    continue
            elif n not in ('printf', 'puts', 'putchar') and not n.startswith(('std::operator<<', 'std::ostream::', 'std::basic_ostream')) \
                    and 'operator<<' not in n:
                continue
            for o in ops:
                s = string_of(X.m, X.g.term(o, X.g.loop_of[bb])) if o[0] in ('g', 'v') else None
                if s is not None:
                    out.append(s.decode('latin-1') if isinstance(s, bytes) else s)
    return out


def values(X, i):
    """Values of the argument of a call: a set, or None."""
    g = X.g
    l = g.loop_of[i.bb]
    t = g.term(i['args'][0], l)
    c = pconst(t) if t[0] == 'p' else None
    if c is not None:
        return {c}
    if l is None or t[0] != 'p' or l.trip is None:
        return None
    n = pconst(l.trip) if l.trip[0] == 'p' else None
    d = padd(t, A(t[1], ('iv', l.id)), -1) if n is not None else None
    d = pconst(d) if d is not None else None
    if n is None or n > 4096 or d is None:
        return None
    early = [e for e in l.exits if e != l.trip_edge]
    if early or not all(X.fn.dominates(i.bb, u) for u in l.latches):
        return None
    return {(d + k) & (1 << t[1]) - 1 for k in range(n)}


def t13(ws, r):
    X = Program(ws)
    r.count('calls', sum(1 for i in X.fn.all() if i.op in ('call', 'invoke')))
    text = printed(X)
    whole = ''.join(text)
    r.count('texts printed', len(text))
    where = 'tool/main.cpp'

    def named(n):
        return re.search(r'(?<![\w-])%s(?![\w-])' % re.escape(n), whole) is not None
    # text of tables that are printed in some other way
    rest = '\n'.join(bytes.fromhex(x['hex']).decode('latin-1') for x in X.m.globals.values() if 'hex' in x and not isinstance(x['hex'], list))

    def missing(n):
        return 'undecided' if re.search(r'(?<![\w-])%s(?![\w-])' % re.escape(n), rest) else 'violation'

    def entry(n):
        return any(re.match(r'[\s*+-]*%s(?![\w-])' % re.escape(n), x) is not None for x in whole.split('\n'))
    for kind, q, fn in ENUMS:
        en = {k: v for k, v in X.m.enum(q).items() if k not in NONE}
        r.count('enumerators', len(en))
        calls = [i for i in X.fn.all() if i.op in ('call', 'invoke') and fn and i.get('dem', '').startswith('vfc::%s(' % fn)]
        got, unknown = set(), None
        for i in calls:
            v = values(X, i)
            if v is None:
                unknown = i
            else:
                got |= v
                where = i.where()
        w = {v & 0xffffffff: k for k, v in en.items()}
        for v, k in sorted(w.items()):
            if v in got or (entry(k) if calls else named(k)):
                r.ok('named', '%s %s' % (kind, k))
            elif unknown is not None:
                r.und('named', '%s %s' % (kind, k), 'printed in a way that is not understood', unknown.where())
            else:
                r.put('violation' if calls else missing(k), 'named', '%s %s' % (kind, k), 'the help does not name it', where)
        for v in sorted(got - set(w)):
            r.put('violation', 'valid', '%s %d' % (kind, v), 'the name of a value that does not exist is printed', where)
        if got and got <= set(w):
            r.ok('valid', kind)
    for a, b in OPTIONS:
        x = any(re.search(r'(?<![\w-])%s(?![\w-])' % a, y) and re.search(r'(?<![\w-])%s(?![\w-])' % b, y) for y in whole.split('\n'))
        r.put('ok' if x else 'violation' if not (named(a) and named(b)) else 'undecided', 'named', 'option %s, %s' % (a, b),
              '' if x else 'the help does not name it', where)
    for kind, ns in (('member', MEMBERS), ('member of the result', RESULT)):
        for n in ns:
            r.put('ok' if named(n) else missing(n), 'named', '%s %s' % (kind, n),
                  '' if named(n) else 'the help does not name it', where)
    r.need('named', 40)
