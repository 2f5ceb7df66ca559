"""C09: exactly the well-formed descriptions of schemas are accepted."""
import collections
import copy
import json

import common
import descr
import enc
import tlc


def places(doc):
    """Every value at every place of a small description, and every key."""
    mk = descr.Maker(common.rng('c09-places'))
    pools = {'name': descr.NAMES[:2] + descr.BAD_NAMES, 'description': descr.DESCRIPTIONS + descr.BAD_DESCRIPTIONS, 'plural': descr.NAMES + descr.BAD_NAMES,
             'namespace': descr.NAMESPACES + descr.BAD_NAMESPACES, 'module_name': descr.MODULES + descr.BAD_MODULES, 'package': descr.PACKAGES + descr.BAD_PACKAGES,
             'indention': descr.BLANKS + descr.BAD_BLANKS, 'id_pattern': descr.GOOD_PATTERNS + descr.BAD_PATTERNS, 'json': ['', 'x', 'é']}
    pools.update({k: sum(descr.KNOWN.values(), []) for k in descr.KNOWN})
    for path, _ in list(mk.nodes(doc))[1:]:
        key = path[-1]
        wrong = descr.WRONG if not (len(path) > 1 and path[-2] == 'properties') else [w for w in descr.WRONG if not isinstance(w, (int, float)) or w in (0, 1)]
        for v in pools.get(key, []) + wrong:
            new = copy.deepcopy(doc)
            at = new
            for p in path[:-1]:
                at = at[p]
            at[key] = v
            yield 'every value', new
        new = copy.deepcopy(doc)
        at = new
        for p in path[:-1]:
            at = at[p]
        if isinstance(at, dict):
            del at[key]
            yield 'every key deleted', new
            if path[-2:-1] == ('properties',):
                for n in descr.PROPS + descr.BAD_PROPS + ['boxes', 'Boxes', 'bOXES']:
                    new = copy.deepcopy(doc)
                    at = new
                    for p in path[:-1]:
                        at = at[p]
                    items = [(n if k == key else k, v) for k, v in at.items()]
                    at.clear()
                    at.update(items)
                    yield 'every name', new
    for path, x in list(mk.nodes(doc)):
        if isinstance(x, dict) and not (path and path[-1] == 'properties'):
            for k in descr.ALL_KEYS:
                if k in x:
                    continue
                new = copy.deepcopy(doc)
                at = new
                for p in path:
                    at = at[p]
                at[k] = 'x'
                yield 'every key added', new


SMALL = descr.OD([
    ('name', 'Graph_x'), ('description', 'defines x.'),
    ('cpp', descr.OD([('namespace', 'a::b'), ('path_as', 'std::filesystem::path'), ('optional_as', 'std::optional'), ('datetime_library', 'ctime'), ('indention', ' ')])),
    ('go', descr.OD([('package', 'a')])),
    ('py', descr.OD([('module_name', 'a.b'), ('path_as', 'str'), ('timezone_as', 'str'), ('indention', ' ')])),
    ('classes', [descr.OD([('name', 'Box'), ('description', 'defines x.'), ('plural', 'Boxes'), ('id_pattern', '^a+$'),
                           ('properties', descr.OD([('p', descr.OD([('type', 'integer'), ('description', 'x'), ('json', 'pp'), ('optional', True)]))]))])]),
    ('embeds', [descr.OD([('name', 'Day'), ('description', 'defines x.'), ('properties', descr.OD([('q', descr.OD([('type', 'Box'), ('description', 'x')]))]))])]),
    ('properties', descr.OD([('r', descr.OD([('type', 'Day'), ('description', 'x')]))]))])


def documents(rng):
    mk = descr.Maker(rng)
    res = []
    for d in descr.packed(rng, descr.types_with(rng)):
        res.append(('types with all keys', d))
    some = list(places(SMALL))
    res += some if common.THOROUGH else rng.sample(some, min(len(some), 900))
    for root in (None, [], 'x', 1, True, {}, [{}]):
        res.append(('root', root))
    n = 30000 if common.THOROUGH else 2200
    for i in range(n):
        d = mk.schema()
        label = 'well-formed'
        n = rng.choice([0, 1, 1, 1, 1, 2, 3])
        m = sum(rng.random() < 0.3 for _ in range(n))
        for k in range(n):
            what = mk.collide(d) if k < m else mk.edit(d)
            label = what if label == 'well-formed' else 'several edits'
        res.append((label, mk.tame(d)))
    return res


def run(ctx):
    rng = common.rng('c09')
    docs = [(label, d, rng.random() < 0.8) for label, d in documents(rng)]
    sd = common.scratch() / 'descriptions'
    sd.mkdir()
    jobs = [[o, descr.text(d), str(sd / '{}.json'.format(i)) if o and i % 3 == 0 else None] for i, (_, d, o) in enumerate(docs)]
    proc = common.sh([common.PY, str(common.VERIF / 'lib' / 'drv_schema.py'), str(common.NCPU)], inp=json.dumps(jobs), cwd=common.scratch())
    if proc.returncode != 0:
        ctx.violation('descriptions cannot be validated', {'stderr': proc.stderr[-3000:]})
        return
    got = json.loads(proc.stdout)
    common.log('{} descriptions validated'.format(len(docs)))
    items = [{'doc': enc.value(d), 'ordered': o, 'crash': g['crash'], 'refs': g['refs'], 'parsed': g['parsed']} for (_, d, o), g in zip(docs, got)]
    for i, g in enumerate(got):
        if g['file'] and g['file'] != g['parsed']:
            ctx.violation('the description is {} as a mapping, but {} as a file'.format(g['parsed'], g['file']), {'description': docs[i][1]}, group='file')
    labels = collections.Counter()
    for (label, _, _), g in zip(docs, got):
        labels[g['parsed']] += 1
        ctx.keys.add((label, g['parsed']))
    for k, v in labels.items():
        ctx.count('descriptions_' + k, v)
    ctx.traces += len(items)
    for i in range(0, len(docs), len(docs) // 5):
        ctx.sample({'description': descr.text(docs[i][1])[:500], 'errors': got[i]['refs']})
    fails = tlc.judge('MaprySchema', items, 'c09', constants={'BadPatterns': tlc.tla_set(descr.BAD_PATTERNS)}, ctx=ctx)
    for i, why in fails:
        label, d, o = docs[i - 1]
        ctx.violation('{} [{}]'.format(why, label), {'description': d, 'ordered': o, 'observed': got[i - 1]}, group=why.split(' at ')[0].split(' of ')[0])
