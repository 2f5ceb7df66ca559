"""Schemas and documents: conforming ones, and single and multiple mutations.

Nothing here decides whether a document conforms; the specification does.
"""
import copy

import common
import model
import names
import run as runmod
from model import *  # noqa: F401,F403

# ------------------------------------------------------------------ values
AB = anchored(rep(cset('ab'), 1))
PATTERNS = [
    anchored(rep(cset('az'), 1)),
    anchored(cat(rep(cset('AZ'), 1, 1), rep(cset('az', '09', '_'), 0))),
    anchored(cat(lit('x-'), rep(cset('09'), 2, 4))),
    anchored(cat(alt(lit('yes'), lit('no')))),
    anchored(rep(lit('ab'), 0, 2)),
    anchored(cat(rep(cset('az', neg=True), 1), chr_('.'), rep(cset('az'), 3, 3))),
]

TEXTS = ['', 'a', 'ab', 'abc', 'ba', 'A', 'Ab_1', 'x-12', 'x-12345', 'x-1', 'yes', 'no', 'yesno',
         'abab', 'ababab', '12.txt', 'a.txt', '12.tx', ' ab', 'ab ', 'ab\ncd', 'x-123\n', 'yes!']
FREE_TEXTS = ['', 'a', 'some text', 'x\ny\tz', 'quo"te', "apo'strophe", 'back\\slash', 'sl/ash',
              'é', 'Ж中', '\U0001f600', 'a\u0001b', ' lead', '{}', '%s', '%d{0}', 'null', '0']
PATHS = ['', '/', '.', '/a', 'a', '/a/b.c', '../x', 'a b', '/é', '/a-b_c', 'C:x',
         'a/', '/a/b/', 'a//b', './a', 'a/./b', '..', '//x', '///x', 'a/..', ' ', '~', '~/x', 'a\\b', '/a/b.c.d', '.x', '%s', '{}']
# JSON names of properties
ODD_NAMES = [' lead', 'trail ', 'a  b', '%', '%d', '{x}', 'dq"uote', "it's", 'back\\slash', 'UPPER', 'lower', 'tab\there', 'ü', 'Ж中', 'a/b', '/', '~0',
             '$ref', '#', 'x.y', 'x:y', 'type', 'class', 'id', '0', '-', '_', 'null', 'a,b', '<a>', '`']
KEYS = ['a', 'b', 'k1', '', 'a b', 'x/y', "q'q", 'd"q', 'é', 'id', '0', 'back\\s', '{k}', '%v']
IDS = ['i1', 'i2', 'a', 'x y', "o'k", 'p/q', 'é', 'dq"', '', '{x}', 'j9', '%s']


def path_ok(lang_conf, text):
    return text


DATES = [(2019, 1, 2), (2020, 2, 29), (1970, 1, 1), (2000, 12, 31), (1969, 7, 20), (2038, 1, 19), (1999, 10, 9)]
TIMES = [(0, 0, 0), (23, 59, 59), (12, 30, 1), (1, 2, 3), (11, 59, 0), (13, 7, 45)]


def moment(fmt, rng):
    """Write a point in time in the format (tokens)."""
    import datetime
    y, m, d = rng.choice(DATES)
    H, M, S = rng.choice(TIMES)
    zone = rng.choice(['+0000', '+0100', '-0530', '+0200'])
    dt = datetime.datetime(y, m, d, H, M, S)
    out = []
    for tok in fmt:
        if not (tok.startswith('%') and len(tok) == 2):
            out.append(tok)
        elif tok == '%z':
            out.append(zone)
        elif tok == '%Z':
            out.append('UTC')
        elif tok == '%e':
            out.append('%2d' % d)
        elif tok == '%l':
            out.append('%d' % ((H + 11) % 12 + 1))
        elif tok == '%P':
            out.append(dt.strftime('%p').lower())
        elif tok == '%Y':
            out.append('%04d' % y)
        else:
            out.append(dt.strftime(tok))
    return ''.join(out)


DURATIONS = ['P1D', 'PT1S', 'PT0.5S', '-P1W', 'P1Y2M3DT4H5M6S', 'PT0.000001S', 'P0D', '+PT90M', 'P0.5D', 'PT36H',
             '-PT0.25S', 'P10Y', 'PT123456.789S', 'P2W', 'P1M', 'PT59.999999S', '-P3DT12H30M5.000001S']
BAD_DURATIONS = ['', '1D', 'PD', 'P1X', 'P-1D', 'P1S', 'PT1D', '1', 'P1DT1H1', 'p1d', ' P1D', 'P1D ', 'P1D2Y',
                 'P1.D', 'P.5D', 'P1,5D', 'PT1S1M', '--P1D', 'P 1D', 'P99999999999Y']
BAD_ZONES = ['No/Where', 'Europe', 'Europe/Zuric', 'GMT+25', '???', 'Europe/ Zurich']


def wrong_kinds():
    return [('null', None), ('true', True), ('false', False), ('zero', 0), ('int', 7), ('float', 2.5), ('str', 'zz'),
            ('empty str', ''), ('arr', []), ('arr1', [1]), ('obj', {}), ('obj1', {'a': 1})]


class Gen:
    """Generates documents of a schema."""

    def __init__(self, s, rng, key_pool=None, id_pool=None):
        self.s = s
        self.rng = rng
        self.keys = key_pool or KEYS
        self.idpool = id_pool or IDS
        self.ids = {}
        self._min = {}

    # -------------------------------------------------- conforming values
    def number(self, t):
        rng = self.rng
        lo, hi = t.get('min'), t.get('max')
        is_int = t['k'] == 'integer'
        if is_int:
            cands = [0, 1, -1, 7, 42, -1000, 2 ** 31, -2 ** 31 - 1, 2 ** 53, -2 ** 53, 999999999999]
        else:
            cands = [0.0, 1.0, -1.0, 0.1, -2.5, 1e10, -1e-3, 3, 1234.5678, 0, 1e300, 5e-324, 2 ** 40 + 0.5, 1e16]
        for b in (lo, hi):
            if b is not None:
                cands += [b, b + 1, b - 1] + ([] if is_int else [b + 0.25, b - 0.25])
        if lo is not None and hi is not None:
            cands += [(lo + hi) // 2 if is_int else (lo + hi) / 2]
        good = [c for c in cands if (lo is None or c > lo or (c == lo and not t.get('xmin')))
                and (hi is None or c < hi or (c == hi and not t.get('xmax')))]
        return rng.choice(good)

    def text(self, t):
        import re
        if 're' in t:
            pat = re.compile(re_text(t['re']))
            pool = [x for x in TEXTS + ['ab-1', 'Zz', 'A9', 'x-99', '123.abc', '?.abc'] if pat.match(x) and '\n' not in x] + t.get('ex', [])
            return self.rng.choice(pool)
        return self.rng.choice(PATHS if t['k'] == 'path' else FREE_TEXTS)

    def value(self, t, depth=0):
        rng, k = self.rng, t['k']
        if k == 'boolean':
            return rng.random() < .5
        if k in ('integer', 'float'):
            return self.number(t)
        if k in ('string', 'path'):
            return self.text(t)
        if k in ('date', 'time', 'datetime'):
            return moment(t.get('fmt', DEFAULT_FORMATS[k]), rng)
        if k == 'time_zone':
            return rng.choice(['Europe/Zurich', 'UTC', 'America/New_York', 'Asia/Kolkata'])
        if k == 'duration':
            return rng.choice(DURATIONS)
        if k == 'array':
            lo = t.get('min', 0)
            hi = t.get('max', lo + (3 if depth < 2 else 1))
            n = rng.randint(lo, max(lo, min(hi, lo + 3)))
            if depth > 4:
                n = lo
            return [self.value(t['v'], depth + 1) for _ in range(n)]
        if k == 'map':
            n = rng.randint(0, 3 if depth < 2 else 1) if depth <= 4 else 0
            return {key: self.value(t['v'], depth + 1) for key in rng.sample(self.keys, n)}
        if k == 'class':
            return rng.choice(self.ids[t['name']])
        if k == 'embed':
            return self.obj(composite(self.s, t['name'])['props'], depth + 1)
        raise NotImplementedError(k)

    def obj(self, props, depth=0, full=None):
        res = {}
        items = list(props)
        if self.rng.random() < .3:
            self.rng.shuffle(items)
        for p in items:
            if p['opt']:
                if full is False or depth > 4 or (full is None and self.rng.random() < .4):
                    continue
            res[p['json']] = self.value(p['t'], depth)
        return res

    def identifiers(self, c, n):
        import re
        if 'id_re' in c:
            pat = re.compile(c.get('id_text') or re_text(c['id_re']))
            pool = [x for x in ['a', 'ab', 'abc', 'x-12', 'x-99', 'A', 'Ab_1', 'Zz', 'yes', 'no', 'abab', '12.txt', '9.abc'] if pat.match(x)]
        else:
            pool = list(self.idpool)
        return self.rng.sample(pool, min(n, len(pool)))

    def doc(self, n=None, full=None):
        """A conforming document with (about) n instances per class."""
        rng = self.rng
        for c in self.s['classes']:
            self.ids[c['name']] = self.identifiers(c, rng.randint(1, 3) if n is None else max(1, n))
        d = self.obj(self.s['props'], 0, full)
        for c in self.s['classes']:
            reg = {}
            for i in self.ids[c['name']]:
                reg[i] = self.obj(c['props'], 1, full)
            d[c['key']] = reg
        if rng.random() < .3:
            items = list(d.items())
            rng.shuffle(items)
            d = dict(items)
        return d

    # -------------------------------------------------- mutations
    def interesting(self, t):
        """Labelled values at a position of the type (conforming or not)."""
        k = t['k']
        res = list(wrong_kinds())
        if k in ('integer', 'float'):
            vals = [0, 1, -1, 1.5, 3.0, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 2 ** 63, -2 ** 63 - 1, 1e19, 1e300,
                    0.1, 1e-7, -0.0]
            for b in (t.get('min'), t.get('max')):
                if b is not None:
                    vals += [b, b + 1, b - 1, b + .5, b - .5, b + 1e-6, b - 1e-6]
            res += [('num {}'.format(v), v) for v in vals]
            res += [('numeric text', '1')]
        elif k in ('string', 'path'):
            for v in t.get('ex', []) + (TEXTS if 're' in t else (PATHS if k == 'path' else FREE_TEXTS)):
                res.append(('text ' + v, v))
        elif k in ('date', 'time', 'datetime'):
            fmt = t.get('fmt', DEFAULT_FORMATS[k])
            good = [moment(fmt, self.rng) for _ in range(2)]
            vals = good + [good[0] + 'x', 'x' + good[0], good[0][:-1], good[0] + good[0], good[0].replace('0', 'q', 1),
                           good[0].replace('1', '99', 1), '2019-13-01', '2019-02-30', '2019-00-10', '2019-01-32',
                           '25:00:00', '12:60:00', '12:00:61', '2021-02-29', '2019-02-30T10:00:00Z',
                           '2019-01-01T24:00:00Z', '2019-01-01']
            res += [('moment ' + v, v) for v in vals]
        elif k == 'time_zone':
            res += [('zone ' + v, v) for v in ['Europe/Zurich', 'UTC', 'Asia/Kolkata'] + BAD_ZONES]
        elif k == 'duration':
            res += [('dur ' + v, v) for v in DURATIONS + BAD_DURATIONS]
        elif k == 'array':
            for n in sorted({0, 1, 2, 3, t.get('min', 0), max(0, t.get('min', 0) - 1), t.get('max', 2), t.get('max', 2) + 1}):
                res.append(('len {}'.format(n), [self.value(t['v'], 3) for _ in range(n)]))
        elif k == 'map':
            for n in (1, 2):
                res.append(('size {}'.format(n), {key: self.value(t['v'], 3) for key in self.rng.sample(self.keys, n)}))
        elif k == 'class':
            others = sorted({i for ids in self.ids.values() for i in ids})
            res += [('ref ' + v, v) for v in others + ['nope', self.ids[t['name']][0] + ' ', self.ids[t['name']][0].upper() + 'X']]
        return res

    def walk(self, doc):
        """Yield (path, what, detail, chain) for each position of the document;
        the chain tells which kinds of containers lead there.

        what: 'value' (detail: the type), 'missing' (detail: a property),
        'registry', 'instance' (detail: the class), 'object' (an object with
        properties), 'graph'.
        """
        res = [((), 'graph', None, 'graph')]

        def val(t, v, path, chain):
            res.append((path, 'value', t, chain))
            if t['k'] == 'array' and isinstance(v, list):
                for i, x in enumerate(v):
                    val(t['v'], x, path + (i,), chain + 'A')
            elif t['k'] == 'map' and isinstance(v, dict):
                for k, x in v.items():
                    val(t['v'], x, path + (k,), chain + 'M')
            elif t['k'] == 'embed' and isinstance(v, dict):
                props(composite(self.s, t['name'])['props'], v, path, chain + 'E')

        def props(ps, v, path, chain):
            res.append((path, 'object', ps, chain))
            for p in ps:
                if p['json'] in v:
                    ch = chain + ('?' if p['opt'] else '.')
                    res.append((path + (p['json'],), 'prop', p, ch))
                    val(p['t'], v[p['json']], path + (p['json'],), ch)
        props(self.s['props'], doc, (), 'G')
        for c in self.s['classes']:
            if c['key'] in doc:
                res.append(((c['key'],), 'registry', c, 'G'))
                if isinstance(doc[c['key']], dict):
                    for i, inst in doc[c['key']].items():
                        res.append(((c['key'], i), 'instance', c, 'G'))
                        if isinstance(inst, dict):
                            props(c['props'], inst, (c['key'], i), 'C')
        return res

    def mutants(self, doc):
        """Yield (label, chain, edit, kind of type) of single mutations."""
        for path, what, detail, generic in self.walk(doc):
            if what == 'value':
                for label, v in self.interesting(detail):
                    yield (label, generic, ('put', path, v), detail)
            elif what == 'prop':
                yield ('drop', generic, ('del', path), detail['t'])
            elif what == 'object':
                yield ('unknown key', generic, ('put', path + ('unknown_key',), {'x': [None, 1]}), None)
                for p in detail:
                    yield ('key case', generic, ('ren', path + (p['json'],), p['json'].swapcase() + '_'), None)
            elif what == 'registry':
                for label, v in wrong_kinds():
                    if label != 'null':
                        yield ('registry := ' + label, generic, ('put', path, v), None)
                yield ('drop registry', generic, ('del', path), None)
                for i in ['', 'a', 'AB', 'x-12', 'x-1', 'new id', 'Ab', 'ab\n', 'abc!', 'no', '12.tx', '9.abc', '/']:
                    yield ('new id ' + i, generic + str(detail.get('id_re')), ('dup', path, i), None)
            elif what == 'instance':
                for label, v in wrong_kinds():
                    yield ('instance := ' + label, generic, ('put', path, v), None)
                yield ('drop instance', generic, ('del', path), None)
            elif what == 'graph':
                for label, v in wrong_kinds():
                    yield ('graph := ' + label, generic, ('root', v), None)


def edit(doc, *ops):
    """Apply the edits to a copy of the document (edits that no longer apply
    are skipped)."""
    d = copy.deepcopy(doc)
    for op in ops:
        if op[0] == 'root':
            d = copy.deepcopy(op[1])
            continue
        path = op[1]
        try:
            x = d
            for k in path[:-1]:
                x = x[k]
            last = path[-1]
            if op[0] == 'put':
                if isinstance(x, list) or (isinstance(x, dict) and isinstance(last, str)):
                    x[last] = copy.deepcopy(op[2])
            elif op[0] == 'del':
                del x[last]
            elif op[0] == 'ren':
                if last in x:
                    x[op[2]] = x.pop(last)
            elif op[0] == 'dup':
                reg = x[last]
                if reg:
                    reg[op[2]] = copy.deepcopy(next(iter(reg.values())))
                else:
                    reg[op[2]] = {}
        except (KeyError, IndexError, TypeError, AttributeError):
            pass
    return d


# ------------------------------------------------------------------ schemas
def around(prefix, t):
    """Properties of the type alone, optional, in arrays and maps."""
    return [P(prefix, t), P(prefix + '_opt', t, opt=True), P(prefix + '_list', arr(t)),
            P(prefix + '_map', mp(t), opt=True)]


NUMBERS = [('i', INT), ('i_min', T('integer', min=-3)), ('i_max', T('integer', max=1000)),
           ('i_rng', T('integer', min=1, max=5, xmin=True, xmax=True)),
           ('i_xmin', T('integer', min=10, xmin=True)), ('i_xmax', T('integer', max=-2, xmax=True)),
           ('f', FLOAT), ('f_min', T('float', min=-1.5)), ('f_max', T('float', max=2.5)),
           ('f_rng', T('float', min=0, max=1, xmin=True, xmax=True)),
           ('f_xmin', T('float', min=0.25, xmin=True)), ('f_mix', T('float', min=-0.5, max=0.5, xmax=True)),
           ('i_one', T('integer', min=7, max=7)), ('f_one', T('float', min=0.5, max=0.5))]
TEXTTYPES = ([('s', STR), ('p', PATH), ('b', BOOL)] +
             [('s{}'.format(i), T('string', re=r)) for i, r in enumerate(PATTERNS)] +
             [('p{}'.format(i), T('path', re=r)) for i, r in enumerate(PATTERNS[:2])])
MOMENTS = [('d', DATE), ('t', TIME), ('dt', DATETIME), ('z', TZ), ('du', DUR),
           ('d2', T('date', fmt=['%d', '.', '%m', '.', '%Y'])),
           ('d3', T('date', fmt=['%Y', '%m', '%d'])),
           ('d4', T('date', fmt=['%d', ' ', '%b', ' ', '%Y'])),
           ('t2', T('time', fmt=['%H', ':', '%M'])),
           ('t3', T('time', fmt=['%I', ':', '%M', ' ', '%p'])),
           ('dt2', T('datetime', fmt=['%Y', '-', '%m', '-', '%d', ' ', '%H', ':', '%M', ':', '%S'])),
           ('dt3', T('datetime', fmt=['%d', '/', '%m', '/', '%y', ' ', '%H', 'h', '%M']))]


def spread(pairs, n):
    """Distribute types over property groups: each type appears alone and in
    the containers over the groups."""
    groups = [[] for _ in range(n)]
    for i, (name, t) in enumerate(pairs):
        ps = around(name, t)
        for j, p in enumerate(ps):
            groups[(i + j) % n].append(p)
    return groups


def wide(name, pairs, **kw):
    """Graph, class and embeddable with all the given types, each type in
    all the containers over the three."""
    g, c, e = spread(pairs, 3)
    return S(name, g + [P('the_emb', emb('Wide_emb')), P('the_cls', ref('Wide_cls'), opt=True)],
             [C('Wide_cls', *c)], [E('Wide_emb', *e)], **kw)


SETTINGS = [
    dict(py={'path_as': 'pathlib.Path', 'timezone_as': 'pytz.timezone'},
         cpp={'path_as': 'std::filesystem::path', 'optional_as': 'std::optional'}),
    dict(py={'path_as': 'str', 'timezone_as': 'str'},
         cpp={'path_as': 'boost::filesystem::path', 'optional_as': 'boost::optional'}),
    dict(py={'path_as': 'str', 'timezone_as': 'pytz.timezone'},
         cpp={'path_as': 'std::filesystem::path', 'optional_as': 'boost::optional'}),
    dict(py={'path_as': 'pathlib.Path', 'timezone_as': 'str'},
         cpp={'path_as': 'boost::filesystem::path', 'optional_as': 'std::optional'}),
    dict(py={'path_as': 'pathlib.Path', 'timezone_as': 'pytz.timezone'},
         cpp={'path_as': 'std::filesystem::path', 'optional_as': 'std::experimental::optional', 'datetime_library': 'date.h'}),
    dict(py={'path_as': 'str', 'timezone_as': 'str'},
         cpp={'path_as': 'boost::filesystem::path', 'optional_as': 'boost::optional', 'datetime_library': 'date.h'}),
]


# ------------------------------------------------------------------ grids
def number_grid():
    """Integers and floats with all kinds of bounds."""
    res = []

    def add(k, **kw):
        res.append(T(k, **{a: b for a, b in kw.items() if b is not None and b is not False}))
    for k, sets in (('integer', [(None, None), (-3, None), (0, None), (4, None), (None, -3), (None, 0), (None, 4),
                                 (-3, 5), (0, 2), (-2, 0), (-9, -4), (3, 1000000), (6, 8)]),
                    ('float', [(None, None), (-1.5, None), (0, None), (0.25, None), (3, None), (None, -1.5), (None, 0), (None, 0.25),
                               (-1.5, 2.5), (0, 1), (-0.5, 0), (-9.25, -4), (3, 4.75)])):
        for lo, hi in sets:
            for xmin in (False, True):
                for xmax in (False, True):
                    if (xmin and lo is None) or (xmax and hi is None):
                        continue
                    add(k, min=lo, max=hi, xmin=xmin, xmax=xmax)
    return [('n{}'.format(i), t) for i, t in enumerate(res)]


def size_grid():
    """Arrays with all kinds of sizes, of all kinds of values, in all kinds of containers."""
    res = []
    values = [INT, STR, arr(INT), mp(BOOL), emb('Grid_emb'), ref('Grid_cls'), arr(ref('Grid_cls'), min=1, max=2), FLOAT]
    i = 0
    for lo in (None, 0, 1, 2):
        for hi in (None, 0, 1, 2, 3):
            if lo is not None and hi is not None and lo > hi:
                continue
            kw = {a: b for a, b in (('min', lo), ('max', hi)) if b is not None}
            for j in range(2):
                v = values[i % len(values)]
                i += 1
                t = arr(v, **kw)
                res.append(t if j == 0 else [arr(t), mp(t), mp(arr(t)), arr(t, min=1)][i % 4])
    return [('a{}'.format(i), t) for i, t in enumerate(res)]


def grid(name, types, embeds=(), **kw):
    """A schema with optional properties only, so that a document may hold any one of them."""
    types = [(n, t) for n, t in types]
    places = [[], [], []]
    at = 0
    for n, t in types:
        if any(x['k'] == 'embed' for x in nested(t)) and at % 3 == 2:
            at += 1
        places[at % 3].append(P(n, t, opt=True))
        at += 1
    return S(name, places[0] + [P('e', emb('Grid_emb'), opt=True)], [C('Grid_cls', *places[1])],
             [E('Grid_emb', *places[2])], grid=True, **kw)


def nested(t):
    res = [t]
    while 'v' in t:
        t = t['v']
        res.append(t)
    return res


def grids():
    nums = number_grid()
    # some of them in containers
    lists = [('l' + n, [arr(t), mp(t), arr(mp(t)), mp(arr(t))][i % 4]) for i, (n, t) in enumerate(nums) if i % 2]
    return [grid('gnum', nums + lists, **SETTINGS[2]), grid('gsize', size_grid(), **SETTINGS[3])]


def grid_values(g, t):
    """Labelled values at the limits of the type and around them."""
    k = t['k']
    if k in ('integer', 'float'):
        vals = {0, 1, -1} if t.get('min') is None and t.get('max') is None else set()
        for b in (t.get('min'), t.get('max')):
            if b is not None:
                vals |= {b, b + 1, b - 1} | ({b + .5, b - .5, b + 1e-9} if k == 'float' else set())
        return [('num {}'.format(v), v) for v in sorted(vals)]
    if k == 'array':
        res = []
        lo, hi = t.get('min', 0), t.get('max', t.get('min', 0) + 2)
        for n in range(0, hi + 2):
            inner = g.value(t['v'], 3)
            res.append(('len {}'.format(n), [inner if t['v']['k'] in ('array', 'map') else g.value(t['v'], 3) for _ in range(n)]))
        good = g.value(t, 2)
        for label, v in grid_values(g, t['v']):
            n = max(lo, 1)
            if t.get('max') == 0:
                continue
            # the inner value at the first or the last place
            xs = [g.value(t['v'], 3) for _ in range(n)]
            xs[g.rng.choice([0, -1])] = v
            res.append(('in an array: ' + label, xs))
        return res + [('good', good)]
    if k == 'map':
        return [('empty', {})] + [('in a map: ' + label, {'k': v}) for label, v in grid_values(g, t['v'])]
    return [('good', g.value(t, 2))]


def grid_docs(s, rng):
    """Documents with one property each: (label, document, type)."""
    for where, c in [('G', s)] + [('C', c) for c in s['classes']] + [('E', e) for e in s['embeds']]:
        for p in c['props']:
            g = Gen(s, rng)
            d = g.doc(n=1, full=False)
            if p['name'] == 'e' and where == 'G':
                continue
            for label, v in grid_values(g, p['t']):
                obj = {p['json']: v}
                x = copy.deepcopy(d)
                if where == 'G':
                    x.update(obj)
                elif where == 'C':
                    x[c['key']][g.ids[c['name']][0]] = obj
                else:
                    x['e'] = obj
                yield label, x, p['t']


def systematic():
    """The systematic schemas."""
    res = []
    res.append(wide('wnum', NUMBERS, **SETTINGS[0]))
    res.append(wide('wtext', TEXTTYPES, **SETTINGS[1]))
    res.append(wide('wtime', MOMENTS, **SETTINGS[0]))
    res.append(wide('wmix', NUMBERS[:2] + TEXTTYPES[:4] + MOMENTS[:5], **SETTINGS[1]))
    # the same with date.h
    res.append(wide('wdate', MOMENTS, **SETTINGS[4]))
    res.append(S('opts_h', [P('only', DATE)] + [P('o_' + n, t, opt=True) for n, t in
                 [('d', DATE), ('t', TIME), ('dt', DATETIME), ('z', TZ), ('a', arr(DATE, min=1)), ('m', mp(TIME)), ('e', emb('Oh_emb')), ('p', PATH), ('mz', mp(TZ))]],
                 [C('Oh_cls', P('when', DATETIME, opt=True), P('zone', TZ), P('mate', ref('Oh_cls'), opt=True), P('e', emb('Oh_emb'), opt=True))],
                 [E('Oh_emb', P('t', TIME), P('zs', arr(TZ), opt=True), P('who', ref('Oh_cls'), opt=True), P('dd', arr(mp(DATETIME)), opt=True))],
                 **SETTINGS[5]))
    # no composites at all
    res.append(S('plain', [p for n, t in NUMBERS[:1] + NUMBERS[3:4] + NUMBERS[6:7] + TEXTTYPES[:4] + MOMENTS[:5]
                           for p in around(n, t)], **SETTINGS[0]))
    # nested containers and sizes
    A3 = arr(T('integer', min=0), min=1, max=2)
    res.append(S('nest', [
        P('aa', arr(arr(INT, max=2), min=1, max=3)), P('am', arr(mp(T('float', min=0)))), P('ma', mp(A3)),
        P('mm', mp(mp(STR))), P('aaa', arr(arr(A3)), opt=True), P('mam', mp(arr(mp(BOOL))), opt=True),
        P('sized', arr(STR, min=2, max=2)), P('minonly', arr(DUR, min=1)), P('maxonly', arr(DATE, max=1), opt=True),
        P('zero', arr(INT, max=0)),
        P('ae', arr(emb('Leaf'))), P('me', mp(emb('Leaf')), opt=True), P('ar', arr(ref('Node'), min=1)),
        P('mr', mp(ref('Node'))), P('aar', arr(arr(ref('Node')))), P('mae', mp(arr(emb('Leaf'))))],
        [C('Node', P('succ', arr(ref('Node'))), P('pred', mp(arr(ref('Node'))), opt=True),
           P('leaves', arr(emb('Leaf')), opt=True))],
        [E('Leaf', P('val', INT), P('nodes', mp(ref('Node')), opt=True), P('sub', arr(arr(STR, min=1)), opt=True))],
        **SETTINGS[1]))
    # references
    res.append(S('refs', [
        P('root', ref('Person')), P('alt', ref('Person'), opt=True), P('all_pets', arr(ref('Pet'))),
        P('by_name', mp(ref('Person'))), P('box', emb('Box')), P('boxes', arr(emb('Box')), opt=True)],
        [C('Person', P('pal', ref('Person'), opt=True), P('pets', arr(ref('Pet'))), P('boss', ref('Person')),
           P('home', emb('Box'), opt=True), plural='People'),
         C('Pet', P('owner', ref('Person')), P('enemies', mp(ref('Pet')), opt=True), P('tag', STR, opt=True),
           id_re=PATTERNS[1]),
         C('Loner', P('buddy', ref('Loner'), opt=True))],
        [E('Box', P('content', ref('Pet')), P('labels', mp(arr(ref('Person')))), P('inner', emb('Inner'), opt=True)),
         E('Inner', P('who', ref('Loner')), P('maybe', ref('Pet'), opt=True))], **SETTINGS[0]))
    # identifiers
    res.append(S('idents', [P('a', ref('Alpha')), P('b', ref('Beta'), opt=True), P('g', arr(ref('Gamma')), opt=True)],
                 [C('Alpha', P('x', INT), id_re=PATTERNS[0]),
                  C('Beta', P('y', STR, opt=True), P('mate', ref('Gamma'), opt=True), id_re=PATTERNS[2], plural='Betae'),
                  C('Gamma', P('z', ref('Alpha')), id_re=PATTERNS[4])], **SETTINGS[1]))
    # classes only; no graph properties
    res.append(S('onlycls', [], [C('Item', P('n', INT), P('o', STR, opt=True)), C('Empty')], **SETTINGS[0]))
    # embeddables only
    res.append(S('onlyemb', [P('e', emb('Outer')), P('o', emb('Outer'), opt=True)],
                 [], [E('Inmost', P('v', T('integer', min=3))), E('Middle', P('i', emb('Inmost')), P('l', arr(emb('Inmost'), max=2))),
                      E('Outer', P('m', emb('Middle')), P('t', DATETIME, opt=True), P('q', mp(emb('Middle')), opt=True))], **SETTINGS[1]))
    # one mandatory, all optional
    res.append(S('opts', [P('only', INT)] + [P('o_' + n, t, opt=True) for n, t in
                 [('b', BOOL), ('i', INT), ('f', FLOAT), ('s', STR), ('p', PATH), ('d', DATE), ('t', TIME), ('dt', DATETIME),
                  ('z', TZ), ('du', DUR), ('a', arr(INT, min=1)), ('m', mp(STR)), ('e', emb('Opt_emb')), ('c', ref('Opt_cls'))]],
                 [C('Opt_cls', P('must', STR), P('o_c', ref('Opt_cls'), opt=True), P('o_a', arr(ref('Opt_cls')), opt=True),
                    P('o_e', emb('Opt_emb'), opt=True))],
                 [E('Opt_emb', P('must', BOOL), P('o_z', TZ, opt=True), P('o_p', PATH, opt=True), P('o_m', mp(arr(STR)), opt=True))],
                 **SETTINGS[0]))
    # JSON names
    res.append(S('renamed', [P('first', INT, json='First name'), P('second', STR, json='first'), P('third', arr(INT, min=1), json='a/b'),
                             P('fourth', mp(T('float', min=0)), opt=True, json="it's"), P('fifth', emb('Ren_emb'), json='FIFTH'),
                             P('six', ref('Ren_cls'), json='ref-to'), P('abbr_URL', PATH, opt=True, json='naïve')],
                 [C('Ren_cls', P('alpha', DUR, json='P'), P('beta', ref('Ren_cls'), opt=True, json='alpha'))],
                 [E('Ren_emb', P('x', INT, json='y'), P('y', STR, json='x'), P('z', T('string', re=PATTERNS[3]), opt=True, json='zed zed'))],
                 **SETTINGS[1]))
    names = iter(ODD_NAMES * 2)
    res.append(S('oddnames', [P('g{}'.format(i), t, opt=i % 3 == 2, json=next(names)) for i, t in enumerate(
                     [INT, STR, arr(INT, min=1, max=2), mp(BOOL), emb('Odd_emb'), ref('Odd_cls'), PATH, TZ, FLOAT, DUR, arr(emb('Odd_emb'), max=2)])],
                 [C('Odd_cls', *[P('c{}'.format(i), t, opt=i % 3 == 2, json=next(names)) for i, t in enumerate(
                     [STR, T('integer', min=1), DATE, arr(ref('Odd_cls')), emb('Odd_emb'), mp(mp(INT)), BOOL])])],
                 [E('Odd_emb', *[P('e{}'.format(i), t, opt=i % 3 == 2, json=n) for i, (t, n) in enumerate(zip(
                     [INT, STR, BOOL, FLOAT, arr(STR, max=1), mp(DUR), TIME, DATETIME, PATH, T('string', re=PATTERNS[0])], ODD_NAMES))])],
                 **SETTINGS[2]))
    # the other settings
    for i in (2, 3):
        res.append(wide('set{}'.format(i), [('p', PATH), ('z', TZ), ('pr', T('path', re=PATTERNS[0])), ('dt', DATETIME), ('i', INT),
                                            ('pp', arr(arr(PATH))), ('zz', mp(arr(TZ)))], **SETTINGS[i]))
    # identifiers: patterns only, or on some of the classes only, which are not in alphabetical order
    for i, pats in enumerate([(None, 0), (0, None), (None, 2, None), (1, None, 0)]):
        cs = [C(n, P('x', INT), P('mate', ref('Mid'), opt=True), id_re=None if k is None else PATTERNS[k])
              for n, k in zip(['Zed', 'Mid', 'Abe'], pats)]
        res.append(S('order{}'.format(i), [P('z', ref('Zed')), P('m', arr(ref('Mid')), opt=True)], cs, [], **SETTINGS[i]))
    # many classes, instance first phase
    res.append(S('phases', [P('n', T('integer', min=1)), P('e', emb('Ph_emb')), P('q', ref('Ph_b'))],
                 [C('Ph_a', P('v', T('integer', max=3)), P('w', STR), id_re=PATTERNS[0]),
                  C('Ph_b', P('v', T('float', min=0, xmin=True)), P('a', ref('Ph_a'), opt=True)),
                  C('Ph_c', P('l', arr(T('integer', min=0), max=3)), P('m', mp(BOOL), opt=True), id_re=PATTERNS[2])],
                 [E('Ph_emb', P('k', arr(ref('Ph_a'))), P('l', DATE, opt=True))], **SETTINGS[0]))
    return res


def random_type(rng, classes, embeds, depth=0):
    r = rng.random()
    if depth < 3 and r < .18:
        kw = {}
        if rng.random() < .4:
            kw['min'] = rng.randint(0, 2)
        if rng.random() < .4:
            kw['max'] = kw.get('min', 0) + rng.randint(0, 2)
        return arr(random_type(rng, classes, embeds, depth + 1), **kw)
    if depth < 3 and r < .32:
        return mp(random_type(rng, classes, embeds, depth + 1))
    if r < .46 and classes:
        return ref(rng.choice(classes))
    if r < .58 and embeds:
        return emb(rng.choice(embeds))
    return rng.choice(NUMBERS + TEXTTYPES + MOMENTS)[1]


def random_schema(name, rng):
    ncls, nemb = rng.choice([(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (3, 2), (2, 2)])
    cnames = rng.sample(['Node', 'Big_item', 'Car', 'Some_URL', 'Lamp', 'Zed'], ncls)
    enames = rng.sample(['Point', 'Inner_box', 'Meta', 'Kv', 'Some_XML'], nemb)
    pnames = ['x', 'y', 'name', 'a_value', 'some_text', 'k', 'count', 'some_URL', 'kind', 'ref_to', 'data', 'when', 'how']

    def props(embeds, n):
        res = []
        used_json = set()
        for nm in rng.sample(pnames, n):
            js = nm
            if rng.random() < .2:
                js = rng.choice(['A b', 'x:y', nm.upper(), nm + '-json', "q'", 'ü', rng.choice(ODD_NAMES)])
                if js in used_json or js in pnames:
                    js = nm
            used_json.add(js)
            res.append(P(nm, random_type(rng, cnames, embeds), opt=rng.random() < .35, json=js))
        return res
    embeds = []
    for i, en in enumerate(enames):
        embeds.append(E(en, *props(enames[:i], rng.randint(1, 4))))
    classes = [C(cn, *props(enames, rng.randint(0, 4)), id_re=rng.choice([None, None, PATTERNS[0], PATTERNS[1], PATTERNS[2]]))
               for cn in cnames]
    return S(name, props(enames, rng.randint(1, 6)), classes, embeds, **rng.choice(SETTINGS))


def reference_schema(name, rng):
    """References in all places, nothing else."""
    ncls, nemb = rng.choice([(1, 1), (2, 1), (2, 2), (3, 1), (3, 3), (1, 0)])
    cnames = rng.sample(['Node', 'Big_item', 'Car', 'Some_URL', 'Lamp', 'Zed'], ncls)
    enames = rng.sample(['Point', 'Inner_box', 'Meta', 'Kv', 'Some_XML'], nemb)
    pnames = ['x', 'y', 'name', 'a_value', 'some_text', 'k', 'count', 'some_URL', 'kind', 'ref_to']

    def typ(embeds, depth=0):
        r = rng.random()
        if depth < 3 and r < .25:
            return arr(typ(embeds, depth + 1), **({'max': 3} if rng.random() < .2 else {}))
        if depth < 3 and r < .45:
            return mp(typ(embeds, depth + 1))
        if r < .6 and embeds:
            return emb(rng.choice(embeds))
        return ref(rng.choice(cnames))

    def props(embeds, n):
        return [P(nm, typ(embeds), opt=rng.random() < .3, json=nm + '-j' if rng.random() < .15 else nm)
                for nm in rng.sample(pnames, n)]
    embeds = [E(en, *props(enames[:i], rng.randint(1, 3))) for i, en in enumerate(enames)]
    classes = [C(cn, *props(enames, rng.randint(0, 4)), id_re=rng.choice([None, None, PATTERNS[0], PATTERNS[2]]))
               for cn in cnames]
    return S(name, props(enames, rng.randint(2, 5)), classes, embeds, **rng.choice(SETTINGS))


def reference_schemas(n, tag):
    return [reference_schema('f{}{}'.format(tag, i), common.rng('refschema:{}:{}'.format(tag, i))) for i in range(n)]


def random_schemas(n, tag):
    return [random_schema('r{}{}'.format(tag, i), common.rng('schema:{}:{}'.format(tag, i))) for i in range(n)]


def type_key(t):
    """What distinguishes the types as far as a mutation is concerned."""
    if t is None:
        return ''
    return repr(sorted((k, repr(v)) for k, v in t.items() if k not in ('v', 'name')))


class Picker:
    """Pick mutations so that new combinations come first."""

    def __init__(self, rng):
        self.rng = rng
        self.seen = set()

    def pick(self, mutants, n):
        ms = list(mutants)
        self.rng.shuffle(ms)
        ranked = [[], [], []]
        for m in ms:
            label, chain, _, t = m
            k1 = (label, type_key(t))
            k2 = (label, t['k'] if t else '', chain)
            if k1 not in self.seen:
                self.seen.update((k1, k2))
                ranked[0].append(m)
            elif k2 not in self.seen:
                self.seen.add(k2)
                ranked[1].append(m)
            else:
                ranked[2].append(m)
        res = (ranked[0] + ranked[1] + ranked[2])[:n]
        for m in ranked[0][n:] + ranked[1][max(0, n - len(ranked[0])):]:
            # not picked: may be picked another time
            label, chain, _, t = m
            self.seen.discard((label, type_key(t)))
            self.seen.discard((label, t['k'] if t else '', chain))
        return res
