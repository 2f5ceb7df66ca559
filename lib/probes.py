"""Do the known findings still fail as described?

The specification (spec/MapryValue.tla) describes these deviations, so that
they do not hide others; every probe shows one of them on the real code.
"""
import json

import gen
import model
import run as runmod
from model import C, DUR, E, FLOAT, INT, P, S, T, emb

SCHEMA = S('probe', [P('i', INT, opt=True), P('f', FLOAT, opt=True), P('s', T('string', re=gen.PATTERNS[0]), opt=True),
                     P('u', T('string', re=model.lit('b')), opt=True), P('e', emb('Nothing'), opt=True),
                     P('x', emb('Holder'), opt=True), P('y', emb('Holder'), opt=True), P('du', DUR, opt=True)],
           [C('Cls', P('v', INT))], [E('Nothing', P('o', INT, opt=True)), E('Holder', P('v', INT))])


def fails(res):
    return 'crash' in res or 'noload' in res


PROBES = {
    'C01': [('F-py-bool', ('py',), {'i': True, 'f': False}, lambda r: not r.get('errs'), 'Python accepts true for an integer and false for a float'),
            ('F-py-registry-null', ('py',), {'clses': None}, fails, 'Python crashes on null for a registry'),
            ('F-py-newline', ('py',), {'s': 'ab\n'}, lambda r: not r.get('errs'), 'Python accepts "ab\\n" for ^[a-z]+$'),
            ('F-py-huge', ('py',), {'f': 10 ** 400}, fails, 'Python crashes on an integer of 400 digits for a float')],
    'C04': [('F-cpp-empty', ('cpp',), {'e': {}}, lambda r: r.get('ser', {}).get('e', 0) is None, 'C++ writes null for an empty embeddable')],
    'C05': [('F-go-reentry', ('go',), {'x': {'v': 'z'}, 'y': {'v': 'z'}}, fails, 'Go panics if a second composite is invalid')],
    'C06': [('F-integral-float', ('py', 'go', 'cpp'), {'i': 3.0}, None, 'Python rejects 3.0 for an integer, Go and C++ accept it'),
            ('F-unanchored', ('py', 'go', 'cpp'), {'u': 'abc'}, None, 'Go accepts "abc" for the pattern b, Python and C++ reject it')],
}


def run(ctx):
    todo = [p for p in PROBES[ctx.prop] if p[0] not in ctx.known_seen]
    langs = sorted({lang for p in todo for lang in p[1]})
    bench = runmod.Bench([SCHEMA], 'probes-' + ctx.prop, langs)
    for ident, ls, doc, failing, what in todo:
        res = [bench.run(lang, [['probe', json.dumps(doc), '#', 100, False]])[0] for lang in ls]
        bad = failing(res[0]) if failing else len({bool(r.get('errs')) for r in res}) > 1
        ctx.finding(ident, bad, what, {'observed': res, 'document': doc, 'schema': model.describe(SCHEMA)})
