"""C13: names are transformed predictably, registries are keyed by plurals."""
import itertools
import json

import common
import deser
import gen
import model
import names
import tlc
from model import C, E, P, S, T, arr, emb, mp, ref

NOUNS = ['criterion', 'minimum', 'maximum', 'matrix', 'life', 'focus']
WORDS = ([w for n in NOUNS for w in (n, n.capitalize(), n.upper(), 'x' + n, n + 's')]
         + ['a', 'b', 'y', 'Y', 's', 'x', 'URL', 'IDs', 'SSE2', '3', '2D', 'Id', 'iPhone', 'day', 'key', 'Daisy', 'buoy', 'DAISY', 'DAy', 'soliloquy', 'Guy',
            'quiy', 'box', 'Bus', 'FAX', 'class', 'fish', 'Branch', 'leaf', 'hero', 'data', 'series', 'lady1', 'foci', 'wife', 'ay', 'ey', 'zy', 'Ay'])
FUNCTIONS = ['plural', 'json_plural', 'camel_case', 'ucamel_case', 'py.as_attribute', 'py.as_variable', 'py.as_composite',
             'cpp.as_field', 'cpp.as_variable', 'cpp.as_composite']
CAPITAL = {'json_plural', 'py.as_variable', 'py.as_composite', 'cpp.as_variable', 'cpp.as_composite'}


def all_names(rng):
    """Words in all combinations of up to two, and many of more."""
    res = set(WORDS)
    pairs = ['_'.join(p) for p in itertools.product(WORDS, WORDS)]
    res.update(pairs if common.THOROUGH else rng.sample(pairs, 700))
    res.update('__'.join(rng.choices(WORDS, k=2)) for _ in range(300))
    for _ in range(20000 if common.THOROUGH else 700):
        res.add(rng.choice(['_', '_', '__', '___']).join(rng.choices(WORDS, k=rng.choice([3, 3, 4, 5]))))
    # every final pair of characters
    chars = 'abcdefghijklmnopqrstuvwxyzAEIOUYXSQ09'
    res.update('Wor' + a + b for a in chars for b in chars)
    for _ in range(20000 if common.THOROUGH else 500):
        n = ''.join(rng.choices('abceuxsyYXSA_09zZ', k=rng.randint(1, 9)))
        res.add(n)
    res = sorted(n for n in res if n[0].isalpha() and n[-1] != '_')
    return res


def functions(ctx, rng):
    todo = []
    for n in all_names(rng):
        caps = n[0].isupper()
        todo += [[f, n] for f in FUNCTIONS if caps or f not in CAPITAL]
        if caps:
            todo.append(['class', n, None])
            if rng.random() < 0.1:
                todo.append(['class', n, rng.choice(['Folks', 'Some_URLs', n, n + 's', 'X', 'Foci', 'Thing_Y'])])
    judged = {}
    # the order of calls, the process and the seed of hashes do not matter
    for k, seed in enumerate(['0', '1', '4711']):
        rng.shuffle(todo)
        proc = common.sh([common.PY, str(common.VERIF / 'lib' / 'drv_names.py')], inp=json.dumps(todo), cwd=common.scratch(),
                         environ=common.env(PYTHONHASHSEED=seed))
        if proc.returncode != 0:
            ctx.violation('the functions cannot be called', {'stderr': proc.stderr[-2000:]})
            return
        for job, got in zip(todo, json.loads(proc.stdout)):
            judged.setdefault((tuple(job), json.dumps(got)), got)
    items, what = [], []
    for (job, _), got in sorted(judged.items(), key=str):
        fn = job[0]
        item = {'n': [ord(c) for c in job[1]], 'crash': '', 'got': []}
        if got[0] is None:
            item['crash'] = got[1]
        else:
            item['got'] = [ord(c) for c in got[0]]
        if fn == 'class' and job[2] is not None:
            # the plural given
            if got != [job[2]]:
                ctx.violation('class {} with the plural {}: {}'.format(job[1], job[2], got), {'input': job, 'observed': got}, group='given plural')
            continue
        item['fn'] = 'plural' if fn == 'class' else fn
        items.append(item)
        what.append([job, got])
    # the harness' own idea of plurals
    for n in all_names(common.rng('c13-mirror'))[::7]:
        items.append({'fn': 'plural', 'n': [ord(c) for c in n], 'crash': '', 'got': [ord(c) for c in names.plural(n)]})
        items.append({'fn': 'ucamel_case', 'n': [ord(c) for c in n], 'crash': '', 'got': [ord(c) for c in names.ucamel(n)]})
        what += [None, None]
    ctx.count('names_transformed', len(items))
    ctx.traces += len(items)
    ctx.sample({'transformations': [w for w in what[::len(what) // 8] if w]})
    for i, why in tlc.judge('MapryNamed', items, 'c13', ctx=ctx):
        if what[i - 1] is None or why.startswith('the spec'):
            raise tlc.TlcError('the harness misspells {}: {}'.format(items[i - 1], why))
        ctx.violation('{} of {!r} gives {}'.format(why, what[i - 1][0][1], what[i - 1][1]), {'input': what[i - 1][0], 'observed': what[i - 1][1]},
                      group=why.split(':')[0])


def model_check(ctx):
    n = 7 if common.THOROUGH else 5
    code, out = tlc.run('MapryNamesModel', {'MaxLen': str(n)}, invariants=['Promise'], tag='c13-model')
    ctx.tlc(out)
    if code != 0:
        raise tlc.TlcError(out[-3000:])
    ctx.count('names_of_the_model', tlc.stats(out)[1])


CLASS_NAMES = ['Focus', 'Some_focus', 'URL', 'Some_URL', 'Day', 'Some_daisy', 'Matrix_box', 'Bus_of_2D', 'Life', 'IDs_of_life', 'Third__life', 'Xx_Y',
               'Criterion', 'Big_matrix', 'A1', 'Key_criterion', 'Buoy', 'Soliloquy', 'Guy', 'Tax', 'Minimum', 'Some_Maximum', 'Q', 'Box_maximum_day']
PROP_NAMES = ['some_URL_property', 'URL_property', 'IDs', 'x', 'X1', 'camelCase', 'two__parts', 'Capital', 'ABC_d_E2', 'focus_of', 'iPhone_y', 'qQ_2D']


def schemas(rng):
    res = []
    pool = list(CLASS_NAMES)
    rng.shuffle(pool)
    for i in range(0, len(pool), 4):
        cs = pool[i:i + 4]
        ps = rng.sample(PROP_NAMES, 6)
        clss = []
        for j, c in enumerate(cs):
            kw = {'plural': rng.choice(['Folk_of_{}', 'Many_{}_URLs', 'Z{}Y', 'The_{}_focus']).format(i + j)} if j == 3 else {}
            clss.append(C(c, P(ps[0], T('string')), P(ps[j + 1], ref(cs[(j + 1) % 4]), opt=True), **kw))
        embs = [E('Emb_of_URL', P(ps[5], arr(ref(cs[0]))), P('in_ID', T('integer')))]
        res.append(S('names{}'.format(i), [P(ps[0], mp(emb('Emb_of_URL'))), P(ps[2], ref(cs[1]), opt=True), P('last_P', T('boolean'))], clss, embs,
                     gname=rng.choice(['Graph_of_URLs', 'Some_IDs_graph', 'G', 'Graph2D_of__x']), **gen.SETTINGS[len(res) % len(gen.SETTINGS)]))
    return res


def run(ctx):
    rng = common.rng('c13')
    model_check(ctx)
    functions(ctx, rng)
    common.log('functions')
    ex = deser.Explorer(ctx, schemas(rng), 'c13')
    runs = ex.runs()
    ex.conforming(8 if common.THOROUGH else 3, runs)
    ex.single(10, 2, runs)
    ex.judge({'accepted', 'rejected', 'wrong value', 'written differently', 'untrue error', 'missed violation', 'neither graph nor errors', 'disagree'})
