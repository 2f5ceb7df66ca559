"""C07: duration strings are parsed and written exactly."""
import itertools

import common
import deser
import enc
import gen
import model
import names
import observe
import run as runmod
import tlc
from model import DUR, INT, C, E, P, S, arr, emb, mp, ref

NS = 10 ** 9
EDGE = [0, 1, 2, 999, 1000, 1001, 999999, 10 ** 6, 10 ** 6 + 1, NS - 1, NS, NS + 1, 59 * NS, 60 * NS, 61 * NS,
        3599 * NS, 3600 * NS, 3601 * NS, 3600 * NS - 1, 86399 * NS + 999999999, 86400 * NS, 86400 * NS + 1, 86401 * NS,
        90000 * NS, 604800 * NS, 30 * 86400 * NS, 365 * 86400 * NS, 31556952 * NS, 10 * NS // 100, NS // 10, NS // 2,
        123456789, 10 ** 9 + 10 ** 3, 2 ** 31 * NS, 2 ** 32 * NS, 2 ** 53, 2 ** 53 + 1, 2 ** 62, 2 ** 63 - 1]


def symbols(thorough):
    """Short texts over the letters of the grammar, all of them up to some length."""
    alpha = 'PT10.DMS-' if not thorough else 'PT10.YDMHS-+'
    res = [''.join(t) for n in range(0, 4 if not thorough else 5) for t in itertools.product(alpha, repeat=n)]
    return res


def tokens(thorough):
    toks = ['1Y', '2.5M', '1W', '0.5D', '3D', 'T', '3H', '1M', '0.25S', '7S', 'S', '01D', '1.S']
    n = 4 if thorough else 3
    res = []
    for k in range(1, n + 1):
        for t in itertools.product(toks, repeat=k):
            res.append('P' + ''.join(t))
    return res


def curated():
    res = ['', 'P', 'PT', '-P', '+P', '-PT', 'P0D', '-P0D', 'PT0S', 'PT0.0S', '-PT0.000000S', 'PT0.000000000S',
           'P1D ', ' P1D', 'p1d', 'P1d', 'P1D\n', 'P 1D', 'P+1D', 'P-1D', '--P1D', '+-P1D', 'P1,5D', 'P1.5.5D', 'P.5D', 'P5.D', 'P1e3D',
           'P१D', 'P１D', 'PT1.1H', 'PT01S', 'PT00S', 'P00D', 'PT1.10S', 'PT1S1S', 'P1D1D', 'PT1S1M', 'PT1H1S', 'P1W1Y', 'P1M1Y', 'PT1D', 'P1H',
           'P1Y2M3W4DT5H6M7.000008S', '-P1Y2M3W4DT5H6M7.000008S', '+P1Y2M3W4DT5H6M7.000008S', 'P1DT', 'P1M', 'PT1M', 'P1MT1M']
    for n in range(1, 12):
        res += ['PT1.{}S'.format('0' * (n - 1) + '1'), 'PT0.{}S'.format('9' * n), '-PT59.{}S'.format('1' * n), 'PT2.{}S'.format('5' + '0' * (n - 1))]
    for days in (106751, 106752, 999999999, 1000000000, 10 ** 12, 292 * 365, 10 ** 18, 10 ** 25):
        res += ['P{}D'.format(days), '-P{}D'.format(days)]
    res += ['PT9223372036S', 'PT9223372036.854775807S', 'PT9223372036.854775808S', '-PT9223372036.854775807S', '-PT9223372036.854775808S',
            'PT9223372037S', '-PT9223372037S', 'PT9223372036.9S', 'PT86399999999999S', 'PT2562047H', 'PT2562048H', 'PT153722867M', 'PT153722868M',
            'P106751DT23H47M16.854775807S', 'P106751DT23H47M16.854775808S', 'P292Y', 'P293Y', 'P3506M', 'P3507M', 'P15250W', 'P15251W',
            'P2737907Y', 'P2737908Y', 'P999999999DT23H59M59.999999S', 'P999999999DT24H', '-P999999999D', '-P999999999DT0.000001S',
            'PT18446744073709551615S', 'PT18446744073709551616S', 'PT99999999999999999999999S', 'PT4611686018.427387904S', 'PT9007199254740993S']
    for u in 'YMWD':
        res += ['P1{}'.format(u), '-P1{}'.format(u), 'P10{}'.format(u), 'P0.1{}'.format(u), 'P1.5{}'.format(u), 'P0.000001{}'.format(u), 'P1.333333333{}'.format(u), 'P99{}'.format(u), 'P0{}'.format(u)]
    for u in 'HM':
        res += ['PT1{}'.format(u), '-PT1{}'.format(u), 'PT10{}'.format(u), 'PT0.1{}'.format(u), 'PT1.5{}'.format(u), 'PT0.000001{}'.format(u), 'PT1.333333333{}'.format(u), 'PT61{}'.format(u), 'PT100{}'.format(u)]
    return res


def written(ns):
    """A text of the duration, written by the harness."""
    sign, a = ('-' if ns < 0 else ''), abs(ns)
    return '{}PT{}.{:09d}S'.format(sign, a // NS, a % NS)


def random_text(rng):
    def num(frac):
        n = rng.choice([str(rng.randint(0, 99)), str(rng.randint(0, 9)), str(rng.randint(0, 10 ** rng.randint(1, 9)))])
        if rng.random() < frac:
            n += '.' + ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 9)))
        return n
    d = [num(.25) + u for u in 'YMWD' if rng.random() < .4]
    t = [num(.25) + u for u in 'HMS' if rng.random() < .45]
    text = rng.choice(['', '', '-', '+']) + 'P' + ''.join(d) + ('T' if t or rng.random() < .05 else '') + ''.join(t)
    if rng.random() < .15:
        i = rng.randrange(len(text) + 1)
        text = rng.choice([text[:i] + text[i + 1:], text[:i] + rng.choice('PTYMWDHS.0123-+ ') + text[i:], text[:i] + text[i:].swapcase()])
    return text


def known(text, lang):
    """Is the text affected by a known finding in the language?"""
    import re
    if lang == 'py':
        return text.endswith('\n')
    if lang == 'cpp':
        m = re.search(r'(\d+)(\.\d+)?S', text)
        return bool(m) and int(m.group(1)) >= 2 ** 63
    return False


def probes(ctx, ex):
    """Do the known findings still fail as described?"""
    res = ex.bench.run('py', [['many', '{"many": ["P1D\\n"]}', '#', 5, False]])[0]
    ctx.finding('F-duration-newline', 'graph' in res or 'crash' in res, 'Python accepts the duration "P1D\\n"', {'observed': res})
    res = ex.bench.run('cpp', [['many', '{"many": ["PT9223372036854775808S"]}', '#', 5, False]])[0]
    ctx.finding('F-duration-stol', 'crash' in res or not res.get('errs'), 'C++ crashes on the duration PT9223372036854775808S', {'observed': res})


def accepted_only(sc, bench):
    """Documents without the rejected elements, one per language."""
    second = observe.Scenario(bench)
    for (schema, doc, _, _, ref_), o in zip(sc.items, sc.obs):
        for lang, cap, _, raw in o['raw']:
            if raw.get('errs'):
                bad = {e[0] for e in raw['errs']}
                keep = [x for i, x in enumerate(doc['many']) if '{}/many/{}'.format(ref_, i) not in bad]
                if keep != doc['many']:
                    second.add(schema, {'many': keep}, [(lang, cap, False)], 'accepted ones')
    return second


def write_side(ctx, ex, rng, texts):
    """Durations made by a client are written and read by every language."""
    n = 40 if common.THOROUGH else 12
    values = EDGE + [-x for x in EDGE]
    for _ in range(n * 40):
        k = rng.choice([4, 9, 12, 15, 18])
        v = rng.randint(0, 10 ** k)
        if rng.random() < .3:
            v -= v % rng.choice([1000, 10 ** 6, NS, 60 * NS, 3600 * NS, 86400 * NS])
        values.append(rng.choice([1, -1]) * v)
    wide = [999999999 * 86400 * NS, -999999999 * 86400 * NS, 10 ** 20, 10 ** 22, -10 ** 22 - 1000]
    items = []
    for lang in ('py', 'go', 'cpp'):
        vs = list(values)
        if lang == 'py':
            vs = [v - v % 1000 for v in vs] + [v - v % 1000 for v in wide]
        else:
            vs += [-2 ** 63 + 1]
        groups = [vs[i:i + 50] for i in range(0, len(vs), 50)]
        jobs = [['many', [{'op': 'set', 'h': 0, 'prop': 'many', 'field': 'Many', 'cls': '*', 'value': [{'u': str(x)} for x in g]},
                          {'op': 'save'}], '#', 1, False] for g in groups]
        for g, raw in zip(groups, ex.bench.run(lang, jobs)):
            if 'outs' not in raw or 'ser' not in raw['outs'][0]:
                items.append({'lang': lang, 'ns': [], 'w': [], 'crash': str(raw)[:200]})
                continue
            ser = observe.ser_plain(raw['outs'][0]['ser'], lang)
            items.append({'lang': lang, 'ns': [enc.number(x) for x in g], 'crash': '',
                          'w': [{'s': x, 'c': enc.cps(x)} for x in ser['many']]})
            texts.update(ser['many'])
    ctx.count('durations_written', sum(len(i['w']) for i in items))
    fails = tlc.judge('MapryWritten', items, 'c07w', ctx=ctx)
    for k, what in fails:
        ctx.violation('{} wrote a duration wrong: {}'.format(items[k - 1]['lang'], what),
                      {'lang': items[k - 1]['lang'], 'what': what, 'written': [x['s'] for x in items[k - 1]['w']]}, group=('written', items[k - 1]['lang']))


def alone():
    """A duration in one place only."""
    res = []
    for i, (t, opt) in enumerate([(DUR, False), (DUR, True), (arr(DUR), True), (mp(DUR), False), (arr(mp(DUR)), False), (mp(arr(DUR)), True), (arr(arr(DUR)), False)]):
        p = P('d', t, opt=opt)
        conf = gen.SETTINGS[i % len(gen.SETTINGS)]
        res += [S('graph{}'.format(i), [p], **conf), S('class{}'.format(i), [], [C('Cls', p)], **conf),
                S('embed{}'.format(i), [P('e', [emb('Emb'), arr(emb('Emb'))][i % 2], opt=i % 3 == 0)], [], [E('Emb', p)], **conf),
                S('inner{}'.format(i), [], [C('Cls', P('e', [mp(emb('Emb')), emb('Emb')][i % 2]))], [E('Emb', P('i', emb('Inner'))), E('Inner', p)], **conf)]
    return res if common.THOROUGH else [s for k, s in enumerate(res) if k % 3 != 1]


def run(ctx):
    rng = common.rng('c07')
    many = S('many', [P('many', arr(DUR))], **gen.SETTINGS[0])
    many['hist'] = True
    places = S('places', [P('d', DUR), P('o', DUR, opt=True), P('l', arr(DUR)), P('m', mp(DUR), opt=True), P('e', emb('Emb')), P('c', ref('Cls'))],
               [C('Cls', P('d', DUR), P('l', arr(mp(DUR)), opt=True))], [E('Emb', P('d', DUR), P('m', mp(arr(DUR)), opt=True))], **gen.SETTINGS[1])
    ex = deser.Explorer(ctx, [many, places] + alone(), 'c07')
    texts = set()
    write_side(ctx, ex, rng, texts)
    common.log('written')
    texts = sorted(texts)
    texts = rng.sample(texts, min(len(texts), 4000 if common.THOROUGH else 400))
    pool = symbols(common.THOROUGH) + tokens(common.THOROUGH)
    if not common.THOROUGH:
        pool = rng.sample(pool, 2200)
    else:
        pool = rng.sample(pool, min(len(pool), 30000))
    texts += pool + curated() + [random_text(rng) for _ in range(8000 if common.THOROUGH else 900)]
    texts += [written(v) for v in EDGE] + [written(-v) for v in EDGE]
    texts = sorted(set(texts))
    ctx.count('duration_texts', len(texts))
    rng.shuffle(texts)
    runs = [('py', 10 ** 6, False), ('go', 10 ** 6, False), ('cpp', 10 ** 6, False)]
    size = 30
    plain = [x for x in texts if not any(known(x, r[0]) for r in runs)]
    for i in range(0, len(plain), size):
        ex.sc.add('many', {'many': plain[i:i + size]}, runs, 'texts')
    for x in texts:
        if any(known(x, r[0]) for r in runs):
            ex.sc.add('many', {'many': [x]}, [r for r in runs if not known(x, r[0])], 'texts')
    probes(ctx, ex)
    clauses = {'accepted', 'rejected', 'wrong value', 'written differently', 'untrue error', 'missed violation', 'too few errors',
               'graph differs after a round trip', 'written JSON rejected', 'neither graph nor errors'}
    ex.judge(clauses)
    ex.sc = accepted_only(ex.sc, ex.bench)
    ex.tag = 'c07-accepted'
    ex.judge(clauses)
    # all the places where a duration may occur
    ex.sc = observe.Scenario(ex.bench)
    ex.tag = 'c07-places'
    one = [('py', 100, False), ('go', 1, False), ('cpp', 100, False)]
    g = gen.Gen(places, rng)
    docs = [g.doc(full=True) for _ in range(3)]
    spots = [[m for m in g.walk(d) if m[1] == 'value' and m[2]['k'] == 'duration'] for d in docs]
    some = curated() + rng.sample(texts, 200 if not common.THOROUGH else 3000)
    for t in some:
        k = rng.randrange(3)
        ex.sc.add('places', gen.edit(docs[k], ('put', rng.choice(spots[k])[0], t)), [r for r in one if not known(t, r[0])], t)
    for s in alone():
        g = gen.Gen(s, rng)
        for doc in [g.doc(full=True) for _ in range(4)]:
            ex.sc.add(s['name'], doc, one, 'alone')
            here = [m for m in g.walk(doc) if m[1] == 'value' and m[2]['k'] == 'duration']
            for t in rng.sample(some, 4) if here else []:
                ex.sc.add(s['name'], gen.edit(doc, ('put', rng.choice(here)[0], t)), [r for r in one if not known(t, r[0])], t)
    ex.judge(clauses)
