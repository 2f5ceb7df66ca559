"""C04: serialization and deserialization are inverse to each other."""
import json

import common
import deser
import gen
import hist
import model
import names
import observe
import probes
import tlc

CLAUSES = {'written differently', 'graph changed by writing', 'written JSON rejected', 'graph differs after a round trip'}
HIST = CLAUSES | {'not refused', 'refused', 'wrong value'}


def exhaustive(ctx):
    """All the histories over a small universe."""
    s = model.S('small', [model.P('g', model.ref('Node')), model.P('n', model.INT, opt=True, json='N x')],
                [model.C('Node', model.P('succ', model.ref('Node'), opt=True),
                         model.P('l', model.arr(model.emb('Box')), opt=True))],
                [model.E('Box', model.P('r', model.ref('Node')))])
    h = hist.Histories(s, common.rng('small'))
    hole = lambda n: {'k': 'hole', 'cls': 'Node', 'n': n}
    box = {'k': 'obj', 'm': [{'n': 'r', 'c': [114], 'r': 'r', 'v': hole(0)}]}
    h.pool = {'*': {'g': [hole(0)], 'n': [h.pool['*']['n'][0]]},
              'Node': {'succ': [hole(0)], 'l': [{'k': 'arr', 'e': []}, {'k': 'arr', 'e': [box]}]}}
    h.ids = {'Node': h.ids['Node'][:2]}
    path = common.scratch() / 'small.json'
    h.file(path)
    depth = 10 if common.THOROUGH else 8
    code, out = tlc.run('MapryHistory', h.constants(path, False, 3 if common.THOROUGH else 2, depth),
                        invariants=['WrittenConforms', 'Roundtrip', 'Stable'], properties=['SaveKeeps'], tag='small')
    if code != 0:
        raise tlc.TlcError('MapryHistory: ' + out[-3000:])
    ctx.tlc(out)
    ctx.count('states_of_the_model_of_a_client', tlc.stats(out)[1])


def run(ctx):
    exhaustive(ctx)
    common.log('model of a client checked')
    n, docs, per = (30, 4, 60) if common.THOROUGH else (6, 1, 30)
    schemas = gen.systematic() + gen.random_schemas(n, 'e') + gen.reference_schemas(n // 3, 'e')
    for s in schemas:
        s['hist'] = True
    ex = deser.Explorer(ctx, schemas + gen.grids(), 'c04')
    runs = [('py', 1, False), ('go', 1, False), ('cpp', 1, False)]
    ex.conforming(24 if common.THOROUGH else 8, runs)
    ex.single(per, docs, runs, only=lambda m: not m[0].startswith(('registry :=', 'instance :=', 'graph :=')))
    ex.grid(runs, 1 if common.THOROUGH else .4)
    ex.judge(CLAUSES)
    # histories
    num, depth = (200, 40) if common.THOROUGH else (12, 36)
    hs = {s['name']: hist.Histories(s, common.rng('hist:' + s['name'])) for s in schemas}
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as pool:
        res = list(pool.map(lambda s: hs[s['name']].generate(num, depth, seed=common.SEED + 1, ctx=ctx), schemas))
    hists = {s['name']: r for s, r in zip(schemas, res)}
    ctx.count('histories', sum(len(r) for r in res))
    common.log('{} histories'.format(sum(len(r) for r in res)))
    items, origin = hist.replay(ctx, ex.bench, hs, hists, 'c04')
    ctx.count('written_or_read_graphs_of_histories', len(items))
    ctx.traces += sum(len(r) for r in res) * 3
    common.log('replayed: {} graphs written or read'.format(len(items)))
    fails = tlc.validate(items, {s['name']: model.tla_schema(s) for s in schemas}, tag='c04-hist', ctx=ctx)
    for item, lang, cap, clause, detail in fails:
        if clause not in HIST and clause != 'crash':
            continue
        name, lang, h, k, out = origin[item - 1]
        ctx.violation('{} ({}): {} [{}, step {} of a history]'.format(clause, lang, detail, name, k),
                      {'clause': clause, 'lang': lang, 'detail': detail, 'schema': model.describe(ex.bench.schemas[name]),
                       'operations': hs[name].ops(h[:k + 1], lang), 'observed': out}, group=(clause, lang))
    if items:
        ctx.sample({'history': [o['op'] for o in origin[0][2]], 'schema': origin[0][0]})
    probes.run(ctx)
