"""C08: date/time formats mean the same everywhere or are refused."""
import itertools
import json
import pathlib
import re

import common
import deser
import enc
import gen
import model
import names
import observe
import run as runmod
import tlc
from model import T, C, E, P, S, arr, emb, mp, ref

KINDS = ('date', 'time', 'datetime')
DATE = ['%a', '%A', '%b', '%B', '%d', '%e', '%m', '%y', '%Y']
TIME = ['%H', '%I', '%l', '%M', '%p', '%P', '%S']
BOTH = ['%z', '%Z', '%%']
ADMISSIBLE = {'date': DATE + BOTH, 'time': TIME + BOTH, 'datetime': DATE + TIME + BOTH}
# literal text which means nothing, something or nearly something to Go
TEXT = ['-', ':', ' ', '/', '.', ',', 'T', 'Z', '_', '__', '\n', '\r\n', 'x', ' of ', 'Day ', 'é', '"', '\\', "'", '{}', '$', 'a', 'am', 's', 'uary',
        'day', 'the', 'P', 'p', 'M', 'J', 'S', '\t', '日', '`', 'ST', '-0', '-07', '-07:00', '-0700', 'Z07', 'Z07:00', 'Z0700', '0', '00', '002', '01', '02', '03',
        '04', '05', '06', '07', '1', '15', '16', '2', '20', '2006', '006', '3', '4', '5', '6', '7', '8', '9', '.0', '.00', '.000x', ',000', '.9',
        ',99', '.001', '.07', '_2', '_2006', '_02', '__2', '_', 'Jan', 'January', 'Janet', 'Mon', 'Monday', 'Month', 'Money', 'MonT', 'Sun', 'Sunday', 'MST', 'PM', 'pm',
        'PMS', 'epm', 'JAN', 'jan', 'mon', 'Feb', 'Tue', 'UTC', '00:00', ':00', 'Z', 'Z-07']
NEUTRAL = ['-', ':', ' ', '/', '. ', 'T', 'Z', '\n', ' x ', ' of ', 'é', '"', '\\', "'", '{}', '{0}', '$', '|', ' - ', '[', ']', '(', ')*', '?', '+', '#', 'h', 'week', '_', '日', '%%',
           ';', '\t', '`', '<', '&', '8', '7', '9', 'at', 'Sun', 'Sat']
NASTY = ['', '%', '%%', '%%%', '%%%%', '%%Y', '%%%Y', '%Y%', '%Y-%', '% Y', '%-d', '%_d', '%5', '%.', '%\n', '%é', '%j', '%U', '%W', '%w', '%f', '%G', '%V', '%c', '%x', '%X',
         '%s', '%D', '%T', '%F', '%R', '%r', '%n', '%t', '%h', '%k', '%C', '%g', '%u', '%E', '%O', '%Ey', '%Od', '%q', '%v', '%L', '%N', '%i', '%J', '%K', '%Q', 'x', ' ', 'Y', 'text only',
         '%Y-%m-%d %q', '%m %j', '%d%', '%%d', '%H:%j', '%f%Y', '%Y\n%j', '%Y\n%', '%\\Y', '%+', '%Y+%', '%0d', '%^a', '%#Z']
SAME = {'%e': '%d', '%l': '%I', '%P': '%p'}


def place(kind, fmt, k):
    """A schema in which the format occurs at some place."""
    t = {'type': kind, 'format': fmt}
    d = {'name': 'Graph', 'description': 'is a graph.',
         'cpp': {'namespace': 'g', 'path_as': 'std::filesystem::path', 'optional_as': 'std::optional', 'datetime_library': 'ctime'},
         'go': {'package': 'g'}, 'py': {'module_name': 'g', 'path_as': 'str', 'timezone_as': 'str'}}
    if k % 5 in (1, 3):
        t = {'type': 'array', 'values': t}
    if k % 5 == 2:
        t = {'type': 'map', 'values': t}
    if k % 5 == 3:
        t = {'type': 'map', 'values': t}
    prop = dict([('type', t['type']), ('description', 'is a property.')] + [(a, b) for a, b in t.items() if a != 'type'])
    if k % 2:
        prop['optional'] = True
    # others, which are right, before and after it
    other = {x: dict(type=x, description='is right.', optional=True) for x in ('date', 'time', 'datetime')}
    before, after = [[], ['date'], ['time', 'date'], ['datetime']][k % 4], [[], ['datetime'], ['date', 'time']][k % 7 % 3]
    comp = {'properties': dict([('b' + x, other[x]) for x in before] + [('p', prop)] + [('z' + x, other[x]) for x in after])}
    if k % 3 == 0:
        d.update(comp)
    elif k % 3 == 1:
        d['classes'] = [dict(name='Thing', description='is a thing.', **comp)]
    else:
        d['embeds'] = [dict(name='Thing', description='is a thing.', **comp)]
        d['properties'] = {'q': {'type': 'Thing', 'description': 'is another.'}}
    return d


def random_format(kind, rng, text, n=None):
    parts = []
    for _ in range(n or rng.randint(1, 7)):
        parts.append(rng.choice(ADMISSIBLE[kind]) if rng.random() < .55 else rng.choice(text))
    if rng.random() < .1:
        parts.insert(rng.randrange(len(parts) + 1), rng.choice(DATE + TIME + NASTY))
    return ''.join(parts)


def formats(rng):
    """(kind, format) pairs."""
    res = [(k, f) for k in KINDS for f in NASTY + [''.join(x) for x in itertools.product(DATE + TIME + BOTH, repeat=1)]]
    for k in KINDS:
        pieces = ADMISSIBLE[k] + TEXT
        pairs = [a + b for a in pieces for b in pieces]
        if not common.THOROUGH:
            pairs = rng.sample(pairs, 1500 if k == 'datetime' else 500)
        res += [(k, p) for p in pairs]
        res += [(k, random_format(k, rng, TEXT)) for _ in range(6000 if common.THOROUGH else 800)]
        # admissible directives with innocent text: mostly accepted
        res += [(k, random_format(k, rng, NEUTRAL)) for _ in range(3000 if common.THOROUGH else 350)]
    # only line separators: neither text nor directive to the lexer
    res = [x for x in set(res) if x[1] == '' or ''.join(x[1].splitlines())]
    return sorted(res)


def acceptance(ctx, rng):
    """Which formats are accepted by mapry for which languages?"""
    pool = formats(rng)
    rng.shuffle(pool)
    d = common.scratch() / 'formats'
    d.mkdir()
    jobs = []
    for i, (kind, f) in enumerate(pool):
        p = d / '{}.json'.format(i)
        p.write_text(json.dumps(place(kind, f, rng.randrange(30))), encoding='utf-8')
        for lang in ('py', 'go', 'cpp'):
            jobs.append([str(i), lang, str(p), str(d / 'out-{}-{}'.format(i, lang))])
    got = [{} for _ in pool]
    said = [{} for _ in pool]
    how = [{} for _ in pool]
    for i, lang, code, err in runmod.generate(jobs):
        got[int(i)][lang] = code == 0
        if code == 0:
            how[int(i)][lang] = ''
        else:
            # a refusal names the format
            named = bool(re.search(r'\.json#(/\w+)*/p(/values)*(/format)?: ', err)) and not re.search(r'\.json#(/\w+)*/[bz](date|time)', err)
            how[int(i)][lang] = 'named' if named and (code == 'SchemaError' or code == 1) else 'otherwise'
        said[int(i)][lang] = [code, err[-300:]]
    common.sh(['rm', '-rf', str(d)])
    items = [{'kind': k, 'f': enc.cps(f), 'got': g, 'how': h} for (k, f), g, h in zip(pool, got, how)]
    ctx.count('formats', len(pool))
    for lang in ('py', 'go', 'cpp'):
        ctx.count('formats_accepted_' + lang, sum(g.get(lang, False) for g in got))
    for n, what in tlc.judge('MapryFormat', items, 'c08f', ctx=ctx):
        kind, f = pool[n - 1]
        ctx.violation('the format {!r} of a {} is {}'.format(f, kind, what),
                      {'format': f, 'kind': kind, 'got': got[n - 1], 'said': said[n - 1]}, group=('acceptance', what))
    ctx.traces += len(jobs)
    return [(k, f, g) for (k, f), g in zip(pool, got)]


def layouts(ctx, rng):
    """The reading of layouts by Go as specified is the one of its library."""
    pieces = [x for x in TEXT if x.isascii()] + ['02', '_2', '2006', '15', '03', '3', 'Mon', 'Monday', 'Jan', 'January', '-0700', 'MST', 'PM', 'pm', '04', '05']
    ls = [''.join(rng.choice(pieces) for _ in range(rng.randint(1, 6))) for _ in range(20000 if common.THOROUGH else 2500)]
    ls = sorted(set(ls))
    d = common.scratch() / 'layout'
    d.mkdir()
    (d / 'main.go').write_text((common.VERIF / 'lib' / 'go' / 'layout.go.txt').read_text())
    proc = common.sh(['go', 'build', '-o', 'layout', 'main.go'], cwd=d, environ=common.env(GOPATH=str(d)), timeout=300)
    if proc.returncode != 0:
        raise runmod.NoAnswer('cannot build the reader of layouts: ' + proc.stderr[-1500:])
    proc = common.sh([str(d / 'layout')], inp=json.dumps(ls), cwd=d)
    items = [{'layout': enc.cps(l), 'elements': e} for l, e in zip(ls, json.loads(proc.stdout))]
    ctx.count('layouts_read_by_go', len(items))
    bad = tlc.judge('MapryFormat', items, 'c08l', ctx=ctx)
    if bad:
        raise runmod.NoAnswer('the specification reads layouts otherwise than Go: {!r}'.format([ls[n - 1] for n, _ in bad[:5]]))


def split(f):
    """Tokens of the format."""
    res, i = [], 0
    while i < len(f):
        if f[i] == '%':
            res.append(f[i:i + 2])
            i += 2
        elif res and not res[-1].startswith('%'):
            res[-1] += f[i]
            i += 1
        else:
            res.append(f[i])
            i += 1
    return res


def usable(f, lang):
    """Is the format out of the reach of the known findings?"""
    toks = [SAME.get(x, x) for x in split(f) if x.startswith('%') and len(x) == 2 and x != '%%']
    if lang == 'py':
        # F-format-repeated
        return len(toks) == len(set(toks))
    if lang == 'date.h':
        # F-dateh-directives
        kinds = [{'%y': 'Y', '%b': 'm', '%B': 'm', '%Y': 'Y', '%m': 'm', '%d': 'd'}.get(x, '') for x in toks]
        if set(toks) & {'%e', '%l', '%P', '%z', '%Z'} or ('%p' in toks and '%I' in toks and toks.index('%p') < toks.index('%I')):
            return False
        if (any(kinds) or set(toks) & {'%a', '%A'}) and not {'Y', 'm', 'd'} <= set(kinds):
            return False
        return usable(f, 'cpp') and len(toks) == len(set(toks))
    if lang == 'cpp':
        # glibc joins names with the text after them
        ts = split(f)
        for a, b in zip(ts, ts[1:]):
            if a in ('%a', '%A', '%b', '%B') and (b[:1].isalpha() or b in ('%a', '%A', '%b', '%B')):
                return False
        # F-format-ctime
        longest = 1 + sum({'%A': 9, '%B': 9, '%z': 5, '%Y': 4, '%a': 3, '%b': 3, '%Z': 0, '%%': 1}.get(x, 2)
                          if x.startswith('%') and len(x) == 2 else len(x.encode()) for x in split(f))
        shortest = sum({'%Z': 0}.get(x, 1) for x in split(f))
        return longest <= 4 * len(f.encode()) and (shortest > 0 or f == '')
    return True


def values(ctx, rng, known):
    """Points in time written and read in the accepted formats."""
    pool = {}
    for kind, f, got in known:
        if not f or not (got.get('py') and got.get('cpp')):
            continue
        if not any(c != '%' and c.isalpha() for c in f) or '\x00' in f:
            continue
        toks = split(f)
        if not any(x.startswith('%') and x not in ('%%', '%Z') for x in toks):
            continue
        langs = tuple(l for l in ('py', 'go', 'cpp') if got.get(l) and usable(f, l))
        # most formats should determine a whole date or time
        have = {SAME.get(x, x) for x in toks}
        good = {'date': bool(have & {'%Y', '%y'}) and bool(have & {'%m', '%b', '%B'}) and '%d' in have,
                'time': bool(have & {'%H'} or have >= {'%I', '%p'}),
                'datetime': bool(have & {'%Y', '%y'}) and bool(have & {'%m', '%b', '%B'}) and '%d' in have and bool(have & {'%H'} or have >= {'%I', '%p'})}[kind]
        pool.setdefault((kind, langs, good), []).append(f)
    # formats which make sense
    for kind in KINDS:
        for _ in range(600 if common.THOROUGH else 80):
            day = rng.choice([['%Y', '%y'][rng.random() < .3]]) 
            parts = []
            if kind != 'time':
                parts += [day, rng.choice(['%m', '%b', '%B']), rng.choice(['%d', '%e'])] + (['%a'] if rng.random() < .2 else ['%A'] if rng.random() < .2 else [])
            if kind != 'date':
                parts += ['%H'] if rng.random() < .5 else [rng.choice(['%I', '%l']), rng.choice(['%p', '%P'])]
                parts += [x for x in ('%M', '%S') if rng.random() < .7]
            if kind == 'datetime' and rng.random() < .3:
                parts.append('%z')
            rng.shuffle(parts)
            f = ''.join(x for p in parts for x in (p, rng.choice(NEUTRAL + ['-', ':', ' ', '/'] * 6)))
            if '%l' in f and rng.random() < .8:
                f = f.replace('%l', '%l ')
            pool.setdefault((kind, None, True), []).append(f)
    # which of the new ones does mapry accept?
    fresh = [(k[0], f) for k, fs in pool.items() if k[1] is None for f in fs]
    d = common.scratch() / 'fresh'
    d.mkdir()
    jobs = []
    for i, (kind, f) in enumerate(fresh):
        p = d / '{}.json'.format(i)
        p.write_text(json.dumps(place(kind, f, 0)), encoding='utf-8')
        jobs.append([str(i), 'go', str(p), str(d / 'out-{}'.format(i))])
    okgo = {fresh[int(i)] for i, _, code, _ in runmod.generate(jobs) if code == 0}
    for k in [k for k in pool if k[1] is None]:
        for f in pool.pop(k):
            langs = tuple(l for l in ('py', 'go', 'cpp') if usable(f, l) and (l != 'go' or (k[0], f) in okgo))
            pool.setdefault((k[0], langs, True), []).append(f)
    schemas = []
    per = {}
    for (kind, langs, good), fs in sorted(pool.items()):
        if len(langs) < 2:
            continue
        fs = sorted(set(fs))
        n = (400 if good else 60) if common.THOROUGH else (60 if good else 10)
        per.setdefault(langs, []).extend((kind, f) for f in rng.sample(fs, min(n, len(fs))))
    for langs, fs in sorted(per.items()):
        rng.shuffle(fs)
        ctx.count('formats_executed_' + '_'.join(langs), len(fs))
        for i in range(0, len(fs), 40):
            props, comp = [], []
            for j, (kind, f) in enumerate(fs[i:i + 40]):
                t = T(kind, fmt=split(f))
                where = props if j % 4 else comp
                t = [t, arr(t), mp(t), t, arr(mp(t))][(i + j) % 5]
                where.append(P('p{}'.format(j), t, opt=True))
            conf = dict(gen.SETTINGS[len(schemas) % 4])
            s = S('fmt{}'.format(len(schemas)), props + [P('e', emb('Emb'))], [C('Cls', *comp)], [E('Emb', *comp[:3], P('ok', T('boolean')))], **conf)
            s['langs'] = list(langs)
            schemas.append(s)
    # C++ with date.h
    fit = sorted({x for (kind, langs, good), fs in pool.items() if good and 'py' in langs for x in [(kind, f) for f in fs] if usable(x[1], 'date.h')})
    rng.shuffle(fit)
    for langs, fs in ((('py', 'go', 'cpp'), [x for x in fit if x in okgo]), (('py', 'cpp'), [x for x in fit if x not in okgo])):
        fs = fs[:240 if common.THOROUGH else 60]
        ctx.count('formats_executed_date.h', len(fs))
        for i in range(0, len(fs), 30):
            ps = [P('p{}'.format(j), [T(kind, fmt=split(f)), arr(T(kind, fmt=split(f))), mp(T(kind, fmt=split(f)))][j % 3], opt=j % 2 == 0)
                  for j, (kind, f) in enumerate(fs[i:i + 30])]
            schemas.append(S('fmth{}'.format(len(schemas)), ps[:12] + [P('e', emb('Emb'))], [C('Cls', *ps[12:20])], [E('Emb', *ps[20:], P('ok', T('boolean')))],
                             **gen.SETTINGS[4 + len(schemas) % 2]))
            schemas[-1]['langs'] = list(langs)
    ex = deser.Explorer(ctx, schemas, 'c08')
    runs = {s['name']: [(l, 1 if l == 'go' else 100, False) for l in s['langs']] for s in schemas}
    n, m = (8, 60) if common.THOROUGH else (3, 14)
    for s in schemas:
        for i in range(n):
            g = gen.Gen(s, ex.rng)
            doc = g.doc(full=True)
            ex.add(s, doc, runs[s['name']], 'conforming')
            if i == 0:
                ms = [x for x in g.mutants(doc) if x[3] and x[3]['k'] in KINDS]
                for label, chain, e, t in ex.picker.pick(ms, m * 3):
                    ex.add(s, gen.edit(doc, e), runs[s['name']], label, chain, t)
                # texts of other formats or with little changes
                spots = [x for x in g.walk(doc) if x[1] == 'value' and x[2]['k'] in KINDS]
                for _ in range(m * 2):
                    a = rng.choice(spots)
                    text = gen.moment(a[2].get('fmt', []), rng)
                    if not text:
                        continue
                    k = rng.randrange(len(text))
                    new = rng.choice([text[:k] + text[k + 1:], text[:k] + rng.choice('0123456789 -:xMJ+') + text[k:], text[:k] + rng.choice('0123456789/Tz') + text[k + 1:], text + 'x', 'x' + text,
                                      gen.moment(rng.choice(spots)[2].get('fmt', []), rng)])
                    ex.add(s, gen.edit(doc, ('put', a[0], new)), runs[s['name']], 'other text')
    clauses = {'accepted', 'rejected', 'wrong value', 'written differently', 'untrue error', 'missed violation', 'too few errors', 'graph differs after a round trip',
               'written JSON rejected', 'neither graph nor errors', 'disagree'}
    ex.judge(clauses)
    # what one language wrote is read by the others
    first = ex.sc
    ex.sc = observe.Scenario(ex.bench)
    seen = set()
    for (schema, _, _, _, _), o in zip(first.items, first.obs):
        for lang, cap, _, raw in o['raw']:
            if raw.get('errs') or 'ser' not in raw:
                continue
            doc = observe.ser_plain(raw['ser'], lang)
            text = json.dumps(doc)
            if 'null' in text or (schema, text) in seen:
                continue
            seen.add((schema, text))
            ex.sc.add(schema, doc, runs[schema], 'written by ' + lang)
    ex.tag = 'c08-second'
    ex.judge(clauses)


def probes(ctx):
    """Do the known findings still fail as described?"""
    s = S('probe', [P('rep', T('date', fmt=['%d', '|', '%d', '|', '%m', ' ', '%Y']), opt=True), P('name', T('date', fmt=['%A']), opt=True),
                    P('adj', T('date', fmt=['%e', '%m', '%Y']), opt=True), P('sat', T('date', fmt=['%a', 'Sat ', '%Y', '-', '%m', '-', '%d']), opt=True),
                    P('day', T('date'), opt=True)], **gen.SETTINGS[0])
    h = S('probeh', [P('d', T('date'), opt=True), P('h', T('time', fmt=['%p', ' ', '%I', ':', '%M']), opt=True), P('l', T('time', fmt=['%l', ':', '%M', ' ', '%P']), opt=True),
                     P('e', T('date', fmt=['%e', ' ', '%m', ' ', '%Y']), opt=True), P('my', T('date', fmt=['%m', '/', '%Y']), opt=True), P('t', T('time'), opt=True),
                     P('z', T('datetime', fmt=['%Y', '-', '%m', '-', '%d', ' ', '%H', ' ', '%z']), opt=True)], **gen.SETTINGS[4])
    h['langs'] = ['cpp']
    bench = runmod.Bench([s, h], 'c08-probes')

    def one(lang, doc, name='probe'):
        return bench.run(lang, [[name, json.dumps(doc), '#', 1, False]])[0]
    r = one('cpp', {'d': '2019-01-02x'}, 'probeh')
    q = one('cpp', {'t': '25:00:00'}, 'probeh')
    ctx.finding('F-dateh-accepts', not r.get('errs') and not q.get('errs'), 'C++ with date.h accepts 2019-01-02x', {'observed': [r, q]})
    rs = [one('cpp', x, 'probeh') for x in ({'h': 'PM 01:30'}, {'l': '1:30 pm'}, {'e': ' 1 02 2019'}, {'my': '01/2019'}, {'z': '2019-01-02 03 +0100'})]
    ctx.finding('F-dateh-directives', all(r.get('errs') or 'crash' in r for r in rs), 'C++ with date.h rejects formats', {'observed': rs})
    r = one('py', {'rep': '01|01|02 2019'})
    ctx.finding('F-format-repeated', 'crash' in r, 'Python crashes on a repeated directive', {'observed': r})
    r = one('cpp', {'name': 'Wednesday'})
    ctx.finding('F-format-ctime', 'crash' in r or 'ser' not in r, 'C++ cannot write the format %A', {'observed': str(r)[:500]})
    r = one('go', {'adj': ' 1022019'})
    q = one('cpp', {'adj': ' 1022019'})
    ctx.finding('F-format-adjacent', bool(r.get('errs') or q.get('errs')), 'Go and C++ reject " 1022019" for %e%m%Y', {'observed': [r, q]})
    r = one('cpp', {'sat': 'TueSat 2019-01-01'})
    ctx.finding('F-format-name', bool(r.get('errs')), 'C++ rejects "TueSat 2019-01-01" for %aSat %Y-%m-%d', {'observed': r})
    r = one('cpp', {'day': '2019-01-02\x00x'})
    ctx.finding('F-format-nul', not r.get('errs'), 'C++ accepts "2019-01-02\\u0000x" for %Y-%m-%d', {'observed': r})


def run(ctx):
    rng = common.rng('c08')
    layouts(ctx, rng)
    common.log('layouts')
    known = acceptance(ctx, rng)
    common.log('acceptance')
    values(ctx, rng, known)
    probes(ctx)
