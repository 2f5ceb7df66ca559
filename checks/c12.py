"""C12: the reachability of types is computed exactly."""
import itertools
import json

import common
import descr
import gen
import model
import tlc
from model import C, E, P, S, T, arr, emb, mp, ref

LEAVES = ['boolean', 'integer', 'float', 'string', 'path', 'date', 'time', 'datetime', 'time_zone', 'duration']


def wrap(rng, t, deep=0.5):
    while rng.random() < deep:
        t = rng.choice([arr, mp])(t)
        deep /= 2
    return t


def graph(rng, kinds, targets, graph_targets=()):
    """A schema of composites with the given edges."""
    names = ['K{}x'.format(i) for i in range(len(kinds))]
    alike = len(kinds) <= 8 and rng.random() < 0.3
    if alike:
        names = [''.join(x) for x in itertools.product('K', 'aA', 'bB', 'cC')][:len(kinds)]
    rng.shuffle(names)

    def to(j):
        return wrap(rng, (ref if kinds[j] == 'class' else emb)(names[j]))
    comps = []
    leaf = rng.random() * 0.6
    for i, ts in enumerate(targets):
        some = [to(j) for j in ts] + [wrap(rng, T(rng.choice(LEAVES)), 0.3) for _ in range(2) if rng.random() < leaf]
        rng.shuffle(some)
        ps = [P('p{}'.format(k), t, opt=rng.random() < 0.3) for k, t in enumerate(some)]
        comps.append(E(names[i], *ps) if kinds[i] == 'embed' else C(names[i], *ps, plural='Many{}'.format(i) if alike else None))
    props = [to(j) for j in graph_targets] + [wrap(rng, T(rng.choice(LEAVES)), 0.4) for _ in range(2) if rng.random() < 0.5]
    rng.shuffle(props)
    order = list(range(len(kinds)))
    rng.shuffle(order)
    return S('g', [P('q{}'.format(k), t) for k, t in enumerate(props)], [comps[i] for i in order if kinds[i] == 'class'],
             [comps[i] for i in order if kinds[i] == 'embed'], langs=())


def graphs(rng):
    subsets = [tuple(c) for n in range(4) for c in itertools.combinations(range(3), n)]
    # every graph of three composites
    for kinds in (('class',) * 3, ('class', 'class', 'embed'), ('class', 'embed', 'embed'), ('embed',) * 3):
        for targets in itertools.product(subsets, repeat=3):
            for _ in range(4 if common.THOROUGH else 1):
                yield graph(rng, kinds, targets, rng.choice(subsets))
    for _ in range(8000 if common.THOROUGH else 600):
        n = rng.randint(1, 7)
        kinds = [rng.choice(['class', 'embed']) for _ in range(n)]
        density = rng.choice([0.15, 0.3, 0.5])
        yield graph(rng, kinds, [[j for j in range(n) if rng.random() < density] for _ in range(n)], [j for j in range(n) if rng.random() < 0.3])
    # long chains and rings
    for n in (12, 25):
        for kind in ('class', 'embed'):
            yield graph(rng, [kind] * n, [[(i + 1) % n] for i in range(n)], [0])
            yield graph(rng, [kind] * n, [[i + 1] if i + 1 < n else [] for i in range(n)], [0])
    for s in gen.systematic():
        yield s


def simple(t):
    if t['k'] in ('array', 'map'):
        return {'k': t['k'], 'v': simple(t['v'])}
    if t['k'] in ('class', 'embed'):
        return {'k': t['k'], 'name': t['name']}
    return {'k': t['k']}


def props(c):
    return [{'n': p['name'], 't': simple(p['t'])} for p in c['props']]


def model_check(ctx):
    consts = {'Types': '{"a", "b", "c"}', 'Eager': 'FALSE'}
    code, out = tlc.run('MapryReach', consts, invariants=['Sound', 'Complete', 'Bounded'], properties=['Ends'], tag='c12-design')
    ctx.tlc(out)
    if code != 0:
        raise tlc.TlcError(out[-3000:])
    ctx.count('states_of_the_design', tlc.stats(out)[1])
    # a descent which marks what it has not looked at yet is told apart
    code, out = tlc.run('MapryReach', dict(consts, Eager='TRUE'), invariants=['Complete'], tag='c12-eager')
    if code != 12 or 'Invariant Complete is violated' not in out:
        raise tlc.TlcError('the eager search is not told apart: ' + out[-2000:])


def run(ctx):
    rng = common.rng('c12')
    model_check(ctx)
    some = list(graphs(rng))
    texts = [descr.text(model.describe(s)) for s in some]
    seen = []
    for seed in ('0', '77'):
        proc = common.sh([common.PY, str(common.VERIF / 'lib' / 'drv_types.py'), str(common.NCPU)], inp=json.dumps(texts), cwd=common.scratch(),
                         environ=common.env(PYTHONHASHSEED=seed))
        if proc.returncode != 0:
            ctx.violation('the types cannot be queried', {'stderr': proc.stderr[-3000:]})
            return
        seen.append(json.loads(proc.stdout))
    for s, a, b in zip(some, *seen):
        if a != b:
            ctx.violation('the answers depend on the seed of hashes', {'schema': model.describe(s), 'observed': [a, b]}, group='order')
    items = [dict(o, g={'classes': [c['name'] for c in s['classes']], 'embeds': [c['name'] for c in s['embeds']], 'props': props(s),
                        'comps': {c['name']: props(c) for c in s['classes'] + s['embeds']}}) for s, o in zip(some, seen[0])]
    ctx.traces += len(items)
    ctx.count('type_graphs', len(items))
    ctx.count('queries', sum(len(i['needs']) * 15 + len(i['refs']) for i in items))
    for i in range(0, len(items), len(items) // 4):
        ctx.sample({'types': json.dumps(items[i]['g'])[:500], 'references': items[i]['refs']})
    for i, why in tlc.judge('MapryTypes', items, 'c12', ctx=ctx):
        ctx.violation(why, {'schema': model.describe(some[i - 1]), 'observed': seen[0][i - 1]}, group=why.split(' ')[0])
