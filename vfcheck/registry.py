"""Property id -> check."""
import json, os, sys
from . import report
from .build import VERIF
from .checks import codec_checks as cc, format_checks as fc, convert_checks as vc, state_checks as sc
from .checks import tool_checks as tc, config_checks as gc, load_checks as lc, main_checks as mc, path_checks as pc, result_checks as rc, \
    help_checks as hc

# id: (function, rules, technique)
CHECKS = {
    'C01': (cc.c01, ['decode-value', 'decode-accepts'],
            'abstract interpretation (bit-affine domain) of the read function specialised on every layout and type'),
    'C02': (cc.c02, ['encode-value', 'encode-accepts'],
            'abstract interpretation (piecewise affine over all doubles) of the write function specialised on every '
            'layout and type'),
    'C03': (cc.c03, ['extent', 'null-rejected'], 'access extent analysis of the specialised codecs'),
    'C04': (cc.c04, ['round-trip'], 'composition of the derived decode and encode maps'),
    'C05': (fc.c05, ['relative-value', 'delegates'],
            'gated term summary of the bounded write function per type, compared with the documented mapping'),
    'C06': (fc.c06, ['layout-size', 'valid-combination', 'codec-accepts'],
            'constant evaluation of the query functions specialised on every enumerator, abstract interpretation of the codecs'),
    'C07': (fc.c07, ['name', 'lookup-table', 'lookup-result', 'key', 'null-not-searched', 'case-hash', 'case-equality'],
            'constant evaluation of the name functions for every value, initialiser tables of the lookup maps, dataflow of '
            'characters through hash and equality'),
    'C08': (fc.c08, ['count-valid'], 'path condition summary per primitive type compared with the specified predicate'),
    'C09': (fc.c09, ['limits', 'reads-index', 'writes', 'writes-only', 'write-result'],
            'gated term summaries of the helpers specialised on the index type: address, width, value and condition of each access'),
    'C10': (fc.c10, ['append-result', 'append-element', 'append-stride', 'lookup', 'contains', 'equality', 'clear'],
            'gated term summaries: conditions of results and writes as BDDs with loop quantifiers'),
    'C11': (fc.c11, ['expand', 'initial'], 'gated term summary, all orderings of the compared operands, initialiser values'),
    'C12': (fc.c12, ['guarded', 'flag'], 'control dependence of every call that reaches F16C instructions on the capability flag'),
    'V01': (vc.c_v01, ['error-exactly-if-invalid', 'delegates', 'is-valid'],
            'gated term summary of the constructor per primitive and index type: condition of the reported error as a BDD '
            'compared with the specified condition'),
    'V02': (vc.c_v02, ['error-exactly-if-refused', 'refused-unchanged', 'commit-mapping', 'commit-stream'],
            'gated term summary of adding a stream: conditions and values of error, mapping and stream writes as BDDs with '
            'loop quantifiers'),
    'V03': (vc.c_v03, ['error-exactly-on-failure', 'no-output-on-failure', 'marks-done'],
            'gated term summary of the conversion per primitive and index type: conditions of result, errors and output'),
    'V04': (vc.c_v04, ['checked-before-read'],
            'path conditions of each read of vertex data in the conversion imply the range check of its index'),
    'V05': (vc.c_v05, ['source', 'destination', 'destination-address', 'vertex-size', 'appended'],
            'symbolic addresses of each decode and encode in the conversion compared with the specified element'),
    'V06': (vc.c_v06, ['value-source', 'value-unmodified', 'bounds-of-element', 'every-vertex', 'complete-before-use',
                       'only-expanded', 'starts-empty'],
            'gated term summary of the conversion: conditions and operands of expanding the bounds, CFG order before use'),
    'V07': (vc.c_v07, ['relative-to', 'mapped-value', 'always-written', 'accessor'],
            'gated term summary of the value written per transform, conditions of the writes as BDDs'),
    'V08': (vc.c_v08, ['looks-up-added', 'always-looked-up', 'duplicate-removed', 'not-shared', 'compares-all-bytes',
                       'hashes-compared-bytes', 'hashes-only-bytes', 'hashes-within'],
            'gated term summaries of the conversion, the equality and the hash of shared vertices: which bytes of which '
            'streams flow into each'),
    'V09': (vc.c_v09, ['index-position', 'index-value', 'counted', 'buffer-start', 'pointer', 'no-buffers-without-indices'],
            'symbolic address and value of each index written, effects on the index buffers, CFG order of the pointers'),
    'V10': (vc.c_v10, ['split-exactly-when-full', 'vertices-not-shared'],
            'condition under which an index buffer starts as BDD compared with the specified condition, per primitive'),
    'V11': (vc.c_v11, ['restart-written', 'vertex-written', 'one-index', 'restart-adds-no-vertex', 'restart-needs-indices'],
            'path conditions and values of the index writes per primitive and input index type'),
    'V12': (vc.c_v12, ['repeated', 'repeated-source', 'repeated-order', 'repeated-first', 'previous-count',
                       'restart-position'],
            'conditions, sources and order of the copies made when an index buffer starts, per primitive'),
    'V13': (sc.c_v13, ['unchanged', 'not-modified'],
            'interprocedural effect analysis: every write that may reach a variable with static storage or an object taken '
            'to be read only'),
    'V14': (sc.c_v14, ['type', 'moved', 'element-alive', 'output-unchanged', 'pointer'],
            'static_assert witnesses on the types; symbolic summaries of moving a converter, adding a stream and setting the '
            'pointers of the index buffers'),
    'T01': (tc.c_t01, ['group', 'extent', 'tail', 'reads'],
            'gated term summary of the encoder, bit level equality of each character with the standard by BDDs'),
    'T02': (tc.c_t02, ['accepted', 'bytes', 'reads'],
            'gated term summary of the decoder, bit level equality of each byte and of the accepting condition by BDDs'),
    'T03': (gc.c_t03, ['parsed', 'type', 'present', 'in-range'],
            'path conditions of every access to a JSON value in the inlined loader as BDDs over the type queries; the query '
            'the access needs must be implied'),
    'T04': (lc.c_t04, ['explained', 'accepted', 'settings', 'all-elements', 'rejected', 'unique', 'wrappers'],
            'disjunctive typestate analysis of the inlined loader (error reported, contents of containers) with path '
            'conditions as BDDs over the type queries'),
    'T05': (mc.t05, ['status', 'message', 'result', 'everything', 'settings', 'directories'],
            'path sensitive typestate interpretation of the inlined main function: every operation that may fail '
            'splits the abstract state, and what is reported, printed and returned is followed to every exit'),
    'T08': (mc.t08, ['only', 'inside', 'distinct', 'contents', 'replace', 'all'],
            'path sensitive typestate interpretation of the inlined main function with symbolic contents of paths and '
            'output streams'),
    'T09': (mc.t09, ['complete', 'origin', 'prefix', 'sizes'],
            'path sensitive typestate interpretation of the inlined main function with symbolic contents of data '
            'buffers, path conditions as decision diagrams'),
    'T10': (mc.t10, ['alive'],
            'ownership and lifetime analysis of borrowed buffers in the typestate interpretation of the inlined main '
            'function'),
    'T11': (mc.t11, ['input', 'arguments', 'bounds'],
            'abstract interpretation of the inlined main function over sets of argument words, typestate interpretation of '
            'what follows'),
    'T12': (pc.t12, ['result', 'defined'],
            'abstract interpretation of the path functions over shapes of strings, results followed as pieces of the '
            'arguments'),
    'T13': (hc.t13, ['named', 'valid'],
            'intervals of the arguments of the name functions called in loops of the inlined main function, compared with '
            'the enumerators; string constants that reach standard output'),
    'T06': (rc.t06, ['arguments', 'bounds', 'data', 'index', 'result'],
            'path sensitive typestate interpretation of the inlined main function with symbolic contents of the texts '
            'and bounds that are handed over; abstract interpretation of the result writer over trees of JSON values'),
    'T07': (rc.t07, ['alive'],
            'ownership and lifetime analysis of borrowed text in the typestate interpretation of the inlined main '
            'function and of the result writer'),
}

# Level notes: what is trusted.
NOTES = {}
BASE_NOTE = ('Decided on LLVM IR that clang 18 makes from the current source of /repo; trusts the front end and the '
             'standard library headers. Obligations that the analysis cannot decide are listed as undecided.')

NOT_APPLICABLE = {}


def manifest():
    checks, na = [], []
    for l in open(os.path.join(VERIF, 'properties.jsonl')):
        p = json.loads(l)
        i = p['id']
        if i in CHECKS:
            checks.append({'property': i, 'quick_cmd': 'python3 -m vfcheck ' + i,
                           'thorough_cmd': 'python3 -m vfcheck ' + i,
                           'technique': CHECKS[i][2], 'level': 'other', 'level_note': NOTES.get(i, BASE_NOTE)})
        else:
            na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'No check built yet.')})
    m = {'version': 1, 'setup_cmd': 'python3 -m vfcheck setup', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


def main(argv):
    if argv and argv[0] == 'setup':
        from .build import irdump_path
        print(irdump_path())
        return 0
    if argv and argv[0] == 'manifest':
        manifest()
        return 0
    ids = argv or sorted(CHECKS)
    rv = 0
    for i in ids:
        fn, rules, tech = CHECKS[i]
        rv = max(rv, report.run(i, fn, rules, tech))
    return rv
