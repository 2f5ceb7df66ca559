"""C11: the object model mirrors the description."""
import json

import common
import descr
import enc
import gen
import model
import tlc


def number(x):
    n = enc.number(x)
    return {'neg': n['neg'], 'i': n['i'], 'f': n['f']}


def encode(x):
    """Numbers of the model as the specification has them."""
    if isinstance(x, dict):
        return {k: [number(n) for n in v] if k in ('min', 'max') else enc.cps(v) if k == 'plural' else encode(v) for k, v in x.items()}
    if isinstance(x, list):
        return [encode(v) for v in x]
    return x


def descriptions(rng):
    mk = descr.Maker(rng)
    for s in gen.systematic():
        yield model.describe(s)
    for s in gen.random_schemas(60 if common.THOROUGH else 12, 'm'):
        yield model.describe(s)
    for _ in range(20000 if common.THOROUGH else 1500):
        yield mk.schema()


def bounds(rng):
    """Properties with every combination of constraints."""
    defs = []
    for t in descr.types_with(rng):
        if t['type'] in ('integer', 'float', 'array', 'string', 'path', 'boolean', 'duration') and all(
                not isinstance(v, dict) or v.get('type') in ('integer', 'Box') for v in t.values()):
            defs.append(t)
    for _ in range(400):
        a, b = sorted([rng.choice([rng.uniform(-5, 5), rng.uniform(-1e9, 1e9), 10 ** rng.uniform(-12, 12), float(rng.randint(-9, 9)), rng.randint(-99, 99), 2.0 ** 53, 1e22, 0.1])
                       for _ in range(2)])
        defs.append(descr.OD([('type', 'float'), ('minimum', a), ('maximum', b), ('exclusive_maximum', False)]))
    return descr.packed(rng, defs)


def run(ctx):
    rng = common.rng('c11')
    docs = [(d, rng.random() < 0.85) for d in list(descriptions(rng))]
    docs += [(d, True) for d in split(rng)]
    sd = common.scratch() / 'descriptions'
    sd.mkdir()
    jobs = [[o, descr.text(d), str(sd / '{}.json'.format(i)) if o and i % 3 == 0 else None] for i, (d, o) in enumerate(docs)]
    # only well-formed descriptions have a model
    proc = common.sh([common.PY, str(common.VERIF / 'lib' / 'drv_schema.py'), str(common.NCPU)], inp=json.dumps([[o, t, None] for o, t, _ in jobs]), cwd=common.scratch())
    fine = [g['parsed'] != 'refused' for g in json.loads(proc.stdout)] if proc.returncode == 0 else [True] * len(jobs)
    docs = [d for d, f in zip(docs, fine) if f]
    jobs = [j for j, f in zip(jobs, fine) if f]
    proc = common.sh([common.PY, str(common.VERIF / 'lib' / 'drv_model.py'), str(common.NCPU)], inp=json.dumps(jobs), cwd=common.scratch())
    if proc.returncode != 0:
        ctx.violation('descriptions cannot be parsed', {'stderr': proc.stderr[-3000:]})
        return
    got = json.loads(proc.stdout)
    items = [{'doc': enc.value(d), 'ordered': o, 'crash': g['crash'], 'got': encode(g['got'])} for (d, o), g in zip(docs, got)]
    ctx.traces += len(items)
    ctx.count('descriptions', len(fine))
    ctx.count('models_compared', len(items))
    ctx.count('properties_compared', sum(len(c['props']) for g in got if not g['crash'] for c in [g['got']['graph']] + g['got']['classes'] + g['got']['embeds']))
    if len(items) < len(fine) // 3:
        raise tlc.TlcError('only {} of {} descriptions are accepted'.format(len(items), len(fine)))
    for i in range(0, len(docs), len(docs) // 4):
        ctx.sample({'description': descr.text(docs[i][0])[:400], 'model': json.dumps(got[i]['got'])[:400]})
    for i, why in tlc.judge('MapryModel', items, 'c11', constants={'BadPatterns': tlc.tla_set(descr.BAD_PATTERNS)}, ctx=ctx):
        d, o = docs[i - 1]
        ctx.violation('the model differs from the description: {}'.format(why), {'description': d, 'ordered': o, 'observed': got[i - 1]}, group=why[:30])


def split(rng):
    """One definition per description (so that one ill-formed definition does
    not spoil the others)."""
    res = []
    for d in bounds(rng):
        for home in [d['classes'][0], d['embeds'][0], d]:
            for n, t in home['properties'].items():
                res.append(descr.OD([('name', 'Graph_x'), ('description', 'defines x.'),
                                     ('classes', [descr.OD([('name', 'Box'), ('description', 'x.')])]),
                                     ('embeds', [descr.OD([('name', 'Day'), ('description', 'x.')])]),
                                     ('properties', descr.OD([(n, t)]))]))
    return res if common.THOROUGH else rng.sample(res, 1500)
