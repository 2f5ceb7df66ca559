"""C16: generated Python respects ordered and unordered mappings."""
import json

import common
import gen
import model
import run as runmod
import tlc
from model import BOOL, C, E, INT, P, S, STR, arr, emb, mp, ref

EMBED = 'written: an embeddable is not ordered'


def shuffled(rng, v, top=True):
    """The same value with the members of objects in any order."""
    if isinstance(v, dict):
        items = [(k, shuffled(rng, x)) for k, x in v.items()]
        rng.shuffle(items)
        return dict(items)
    if isinstance(v, list):
        return [shuffled(rng, x) for x in v]
    return v


def schemas(rng):
    res = gen.systematic() + gen.random_schemas(80 if common.THOROUGH else 14, 'ord') + gen.reference_schemas(20 if common.THOROUGH else 3, 'ord')
    # names which sort differently than they are given
    res.append(S('zorder', [P('zz', mp(mp(INT))), P('aa', emb('Zem'), opt=True), P('mm', mp(emb('Zem')), json='!'), P('bb', arr(mp(arr(mp(BOOL)))), opt=True, json='zzz')],
                 [C('Zc', P('z', mp(STR), opt=True), P('a', INT, json='zzz'), P('m', mp(emb('Aem')), opt=True)),
                  C('Ac', P('z', ref('Zc'), opt=True), P('a', mp(arr(emb('Zem'))), opt=True))],
                 [E('Zem', P('z', mp(INT)), P('a', STR, opt=True), P('e', emb('Aem'), opt=True)), E('Aem', P('q', mp(mp(STR)), opt=True), P('b', INT))]))
    return [s for s in res if 'py' in s['langs']]


def run(ctx):
    rng = common.rng('c16')
    some = schemas(rng)
    bench = runmod.Bench(some, 'c16', langs=('py',))
    for (name, lang), why in bench.refused.items():
        ctx.violation('no {} program for an accepted schema: {}'.format(lang, why), {'schema': model.describe(bench.schemas[name])}, group='no program')
    jobs = []
    per = 60 if common.THOROUGH else 18
    for s in some:
        if not bench.ok(s['name'], 'py'):
            continue
        for i in range(per):
            d = shuffled(rng, gen.Gen(s, rng).doc(full=[True, None, None, False][i % 4]))
            if rng.random() < 0.2:
                for c in s['classes']:
                    if not any(t in json.dumps(d) for t in ('"r1"',)) and rng.random() < 0.3 and not d.get(c['key']):
                        d.pop(c['key'], None)
            jobs.append([s['name'], json.dumps(d), ['all', 'none', 'mixed'][i % 3], str(rng.random()), None])
    raws = bench.run_py(jobs, driver='drv_ordered.py')
    items, origin = [], []
    for job, raw in zip(jobs, raws):
        if 'rejected' in raw:
            # a matter of C01
            ctx.count('rejected_documents')
            continue
        items.append(dict(raw, s=job[0], crash=raw.get('crash', '')))
        origin.append(job)
    ctx.traces += len(items)
    ctx.count('schemas', len(some))
    ctx.count('documents', len(items))
    ctx.count('parts_written_on_their_own', sum(len(i.get('parts', [])) for i in items))
    for i in items[:3]:
        ctx.sample({'given': json.dumps(i.get('given'))[:600]})
    seen = False
    for n, why in tlc.judge('MapryOrdered', items, 'c16', ctx=ctx, extra={'schemas': {s['name']: model.tla_schema(s) for s in some}}):
        if why == EMBED:
            seen = True
            if 'F-ordered-embed' in ctx.listed:
                continue
        ctx.violation(why, {'schema': model.describe(bench.schemas[origin[n - 1][0]]), 'document': origin[n - 1][1], 'ordered': origin[n - 1][2],
                            'observed': items[n - 1]}, group=why.split(':')[0] + why[-12:])
    ctx.finding('F-ordered-embed', seen, EMBED)
