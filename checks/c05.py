"""C05: error reports are complete, located and capped."""
import common
import deser
import enc
import gen
import model
import probes
import tlc

CLAUSES = {'over capacity', 'too few errors', 'too many errors', 'untrue error', 'missed violation',
           'graph despite errors', 'accepted'}


def design(ctx):
    """The machine on small documents: all orders of visits."""
    s = model.S('small', [model.P('a', model.T('integer', min=1)), model.P('o', model.arr(model.BOOL, max=2), opt=True), model.P('r', model.ref('Node'))],
                [model.C('Node', model.P('v', model.STR), id_re=gen.PATTERNS[0]), model.C('Other', id_re=gen.PATTERNS[2])],
                [model.E('Box', model.P('w', model.INT))])
    rng = common.rng('c05-small')
    items = []
    while len(items) < (60 if common.THOROUGH else 24):
        g = gen.Gen(s, rng)
        d = g.doc(n=1, full=True)
        some = rng.sample(list(g.mutants(d)), rng.choice([0, 1, 2, 3]))
        items.append({'s': 'small', 'doc': enc.value(gen.edit(d, *[m[2] for m in some])), 'ref': '#', 'cap': rng.choice([1, 2, 3, 100]),
                      'lang': rng.choice(['py', 'go', 'cpp'])})
    path = common.scratch() / 'c05-small.json'
    common.dump(path, {'schemas': {'small': model.tla_schema(s)}, 'items': items})
    invs = ['Capped', 'True', 'Once', 'Complete', 'Outcome']
    for late, goon, broken in (('FALSE', 'FALSE', None), ('TRUE', 'FALSE', 'Capped'), ('FALSE', 'TRUE', 'True')):
        code, out = tlc.run('MapryDeser', constants(path, late, goon), invariants=invs if broken is None else [broken],
                            properties=['Terminates'] if broken is None else [], tag='c05-' + str(broken))
        if (broken is None and code != 0) or (broken and 'Invariant {} is violated'.format(broken) not in out):
            raise tlc.TlcError(out[-3000:])
        ctx.tlc(out)


def constants(path, late='FALSE', goon='FALSE'):
    return {'File': tlc.tla_str(str(path)), 'Late': late, 'GoOn': goon, 'ValidZones': tlc.tla_set(tlc.ZONES), 'OpenZones': tlc.tla_set(tlc.OPEN_ZONES)}


def machine(ctx, ex):
    """Every recorded list of errors is one of a behaviour of the machine."""
    items, back = [], []
    for o in ex.sc.obs:
        by = {}
        for (lang, cap, _, raw), r in zip(o['raw'], o['runs']):
            if not r['crash'] and r['errs']:
                by.setdefault(lang, []).append((cap, r['errs'], raw))
        for lang, rs in by.items():
            items.append({'s': o['s'], 'doc': enc.value(o['doc']), 'ref': o['ref'], 'lang': lang, 'runs': [{'cap': cap, 'errs': errs} for cap, errs, _ in rs]})
            back.append((o, lang, rs))
    k = 10 ** 6 if common.THOROUGH else 4500
    if len(items) > k:
        some = ex.rng.sample(range(len(items)), k)
        items, back = [items[i] for i in some], [back[i] for i in some]
    path = common.scratch() / 'c05-machine.json'
    common.dump(path, {'schemas': ex.sc.tla_schemas(items), 'items': items})
    chunks = min(16, len(items))
    chunks = -(-len(items) // -(-len(items) // chunks))
    consts = {'File': tlc.tla_str(str(path)), 'NChunks': str(chunks), 'ValidZones': tlc.tla_set(tlc.ZONES), 'OpenZones': tlc.tla_set(tlc.OPEN_ZONES)}
    code, out = tlc.run('MapryDeserTrace', consts, tag='c05-machine')
    if code != 0 or len(tlc.printed(out, 'DONE')) != chunks:
        raise tlc.TlcError(out[-4000:])
    ctx.tlc(out)
    total = sum(len(it['runs']) for it in items)
    common.log('{} lists of errors matched'.format(total))
    ctx.count('lists_of_errors_matched', total)
    for text in sorted(tlc.printed(out, 'FAIL')):
        n, j = map(int, text.split())
        o, lang, rs = back[n - 1]
        cap, _, raw = rs[j - 1]
        ctx.violation('the errors are not those of a deserializer ({}, capacity {}): {} [{}]'.format(lang, cap, raw.get('errs'), o['s']),
                      {'schema': model.describe(ex.bench.schemas[o['s']]), 'document': o['doc'], 'reference': o['ref'], 'lang': lang, 'capacity': cap,
                       'observed': raw}, group=('machine', lang))


def run(ctx):
    design(ctx)
    common.log('design checked')
    n, docs, per = (40, 5, 60) if common.THOROUGH else (8, 2, 40)
    ex = deser.Explorer(ctx, gen.systematic() + gen.grids() + gen.random_schemas(n, 'c'), 'c05')

    def runs(rng):
        cap = rng.choice([1, 2, 3, 5])
        return [('py', 100, False), ('cpp', 100, False), ('py', cap, False), ('cpp', cap, False), ('go', 1, False)]
    ex.multiple(per, docs, runs)
    ex.single(10, 1, runs)
    ex.conforming(1, runs)
    ex.grid(runs, 1 if common.THOROUGH else .6)
    # without classes and embeddables Go goes on after an error
    flat = [s for s in ex.schemas if not s['classes'] and not s['embeds']]

    def goruns(rng):
        return [('go', rng.choice([1, 2, 3, 100]), False), ('go', 100, False)]
    for s in flat:
        for i in range(4 * docs):
            g = gen.Gen(s, ex.rng)
            d = g.doc(full=[True, None][i % 2])
            ms = list(g.mutants(d))
            for _ in range(per // 2):
                some = [m for m in ex.rng.sample(ms, min(len(ms), ex.rng.choice([1, 2, 3, 4, 6]))) if m[1] != 'graph']
                ex.add(s, gen.edit(d, *[m[2] for m in some]), goruns(ex.rng), 'several', 'go')
    # other references of the caller
    for i, item in enumerate(ex.sc.items):
        if i % 3 == 0:
            item[4] = ex.rng.choice(['#', 'a/b', '', 'file.json#', 'x y', '%s', '{}', '/'])
    ex.judge(CLAUSES)
    machine(ctx, ex)
    probes.run(ctx)
