"""C17: data survives schema evolution."""
import concurrent.futures
import copy
import json
import re

import common
import enc
import gen
import model
import observe
import run as runmod
import tlc

NAMES = ['nw_' + x for x in 'abcdefghijklmnopqrstuvwxyz'] + ['fresh_{}_x'.format(x) for x in 'abcdefghijklmnopqrstuvwxyz']
CLASSES = {'New_cls': 'new_clses', 'Another_box': 'another_boxes', 'Vertex': 'vertexes'}
EMBEDS = ['New_emb', 'Other_part', 'Detail']


def looser(t):
    """Leaf types which allow for more."""
    res = []

    def without(*keys, **kw):
        x = {k: v for k, v in t.items() if k not in keys}
        x.update(kw)
        res.append(x)
    if t['k'] in ('integer', 'float'):
        if 'min' in t:
            without('min', 'xmin')
            without(min=t['min'] - 1)
            if t.get('xmin'):
                without('xmin')
        if 'max' in t:
            without('max', 'xmax')
            without(max=t['max'] + 1)
            if t.get('xmax'):
                without('xmax')
    elif t['k'] in ('string', 'path') and 're' in t:
        without('re', 're_text')
    return res


class Palette:
    """Leaf types by number."""

    def __init__(self):
        self.types = []
        self.index = {}

    def number(self, t):
        key = json.dumps(t, sort_keys=True)
        if key not in self.index:
            self.index[key] = len(self.types) + 1
            self.types.append(t)
        return self.index[key]

    def close(self, depth=2):
        """Add the looser types, for some steps; return what TLC reads."""
        for _ in range(depth):
            for t in list(self.types):
                for x in looser(t):
                    self.number(x)
        return [{'t': self.tla(t), 'looser': [self.index[json.dumps(x, sort_keys=True)] for x in looser(t)
                                              if json.dumps(x, sort_keys=True) in self.index]} for t in self.types]

    def tla(self, t):
        if t['k'] in ('array', 'map'):
            return dict({k: v for k, v in t.items() if k != 'v'}, v=self.tla(t['v']))
        if t['k'] in ('class', 'embed'):
            return {'k': t['k'], 'name': t['name']}
        return dict(model.tla_type(t), i=self.number(t))

    def back(self, t):
        if 'i' in t:
            return copy.deepcopy(self.types[t['i'] - 1])
        if t['k'] in ('array', 'map'):
            return dict({k: v for k, v in t.items() if k != 'v'}, v=self.back(t['v']))
        return dict(t)


def to_tla(s, palette):
    """The schema for TLC, with the identities of the properties."""
    d = model.tla_schema(s)
    for c, ps in [(s, d['graph']['props'])] + [(c, d['classes'][c['name']]['props']) for c in s['classes']] + \
            [(c, d['embeds'][c['name']]['props']) for c in s['embeds']]:
        for p, q in zip(c['props'], ps):
            q['pid'] = p.get('pid') or 'old {} {}'.format(c['name'] if c is not s else '*', p['name'])
            q['t'] = palette.tla(p['t'])
    return d


def from_tla(d, base, palette, name):
    """The schema which TLC made of the base."""
    def props(ps):
        return [dict(model.P(p['name'], palette.back(p['t']), opt=p['opt'], json=p['json']), pid=p['pid']) for p in ps]
    s = copy.deepcopy(base)
    s['name'] = name
    s['props'] = props(d['graph']['props'])
    old = {c['name']: c for c in base['classes']}
    s['classes'] = []
    for n in d['corder']:
        c = copy.deepcopy(old.get(n, {'name': n, 'key': CLASSES.get(n)}))
        c['props'] = props(d['classes'][n]['props'])
        if 'id_re' not in d['classes'][n]:
            c.pop('id_re', None)
            c.pop('id_text', None)
        s['classes'].append(c)
    # embeddables in their order, new ones first (old ones may use them)
    old = {c['name']: c for c in base['embeds']}
    embeds = d['embeds'] if isinstance(d['embeds'], dict) else {}
    order = [n for n in embeds if n not in old] + [c['name'] for c in base['embeds']]
    s['embeds'] = [dict(copy.deepcopy(old.get(n, {'name': n})), props=props(embeds[n]['props'])) for n in order]
    return s


def evolve_file(path, base, palette, docs=()):
    tla = to_tla(base, palette)
    leaves = palette.close()
    common.dump(path, {'schema': tla, 'leaves': leaves, 'docs': [enc.value(d) for d in docs],
                       'names': NAMES if not docs else NAMES[:1], 'classes': CLASSES if not docs else {'New_cls': 'new_clses'},
                       'embeds': EMBEDS if not docs else EMBEDS[:1]})
    return tlc.tla_str(str(path))


def constants(f, depth, stride, sim):
    return {'EvolveFile': f, 'Depth': str(depth), 'Stride': str(stride), 'Sim': 'TRUE' if sim else 'FALSE',
            'ValidZones': tlc.tla_set(tlc.ZONES), 'OpenZones': tlc.tla_set(tlc.OPEN_ZONES)}


def design(ctx):
    """All short evolutions of a small schema, on all of some documents."""
    s = model.S('small', [model.P('a', model.T('integer', min=1, max=5)), model.P('o', model.T('string', re=gen.PATTERNS[0]), opt=True),
                          model.P('r', model.arr(model.ref('Node'), min=1)), model.P('e', model.emb('Box'))],
                [model.C('Node', model.P('v', model.T('integer', min=0, xmin=True), opt=True), id_re=gen.PATTERNS[0])],
                [model.E('Box', model.P('w', model.arr(model.BOOL, max=1)))])
    rng = common.rng('c17-small')
    docs = []
    for i in range(8 if common.THOROUGH else 4):
        g = gen.Gen(s, rng)
        d = g.doc(full=[True, False, None][i % 3])
        docs.append(d)
        ms = list(g.mutants(d))
        docs += [gen.edit(d, m[2]) for m in rng.sample(ms, 4)]
    f = evolve_file(common.scratch() / 'c17-small.json', s, Palette(), docs)
    for inv, holds in (('Compatible', True), ('StepCompatible', True), ('NeverMore', False)):
        code, out = tlc.run('MapryEvolve', constants(f, 3 if common.THOROUGH and holds else 2, 1, False), spec='EvolveSpec', invariants=[inv],
                            constraint='Shallow', tag='c17-' + inv)
        broken = 'Invariant {} is violated'.format(inv) in out
        if broken == holds or (holds and code != 0):
            raise tlc.TlcError(out[-3000:])
        ctx.tlc(out)


def run(ctx):
    design(ctx)
    common.log('design checked')
    rng = common.rng('c17')
    bases = {s['name']: s for s in gen.systematic()}
    pick = ['wmix', 'nest', 'refs', 'idents', 'onlyemb', 'opts', 'renamed', 'phases', 'oddnames', 'opts_h'] if not common.THOROUGH else list(bases)
    some = [bases[n] for n in pick] + gen.random_schemas(16 if common.THOROUGH else 2, 'c17')
    stride, versions = 3, (6 if common.THOROUGH else 3)
    depth = stride * versions
    chains = {}

    def simulate(i):
        s = some[i]
        palette = Palette()
        f = evolve_file(common.scratch() / 'c17-{}.json'.format(i), s, palette)
        code, out = tlc.run('MapryEvolve', constants(f, depth, stride, True), spec='EvolveSpec', workers=1, tag='c17-{}'.format(i), heap='1g',
                            extra=['-simulate', 'num=1', '-depth', str(depth + 3), '-seed', str(common.SEED * 1000 + i)])
        if code != 0:
            raise tlc.TlcError(out[-4000:])
        hists = [json.loads(t) for t in tlc.printed(out, 'HIST')]
        if not hists:
            raise tlc.TlcError('no history: ' + out[-2000:])
        base = copy.deepcopy(s)
        for c in [base] + base['classes'] + base['embeds']:
            for p in c['props']:
                p['pid'] = 'old {} {}'.format(c['name'] if c is not base else '*', p['name'])
        base['name'] = s['name'] + '_e0'
        chain = [base] + [from_tla(d, s, palette, '{}_e{}'.format(s['name'], j + 1)) for j, d in enumerate(hists[0]['versions'])]
        return chain, hists[0]['whats'], {v['name']: to_tla(v, palette) for v in chain}
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        sims = list(ex.map(simulate, range(len(some))))
    ctx.count('histories', len(sims))
    ctx.count('steps', sum(len(w) for _, w, _ in sims))
    for _, w, _ in sims:
        for x in w:
            ctx.keys.add(re.sub(r' \S+$', '', x))
    ctx.sample({'history': sims[0][1]})
    schemas = [v for chain, _, _ in sims for v in chain]
    common.log('{} schemas'.format(len(schemas)))
    bench = runmod.Bench(schemas, 'c17')
    common.log('built')
    for (name, lang), why in list(bench.refused.items()) + list(bench.broken.items()):
        ctx.violation('no {} program for {}: {}'.format(lang, name, why), {'schema': model.describe(bench.schemas[name]), 'lang': lang, 'why': why},
                      group='no program ' + lang)
    sc = observe.Scenario(bench)
    runs = [('py', 100, False), ('go', 1, False), ('cpp', 100, False)]
    pairs = []
    for chain, whats, tlas in sims:
        for i, s in enumerate(chain[:-1]):
            for n in range(24 if common.THOROUGH else 8):
                g = gen.Gen(s, rng)
                d = g.doc(full=[True, None, False][n % 3])
                if n % 4 == 3:
                    ms = [m for m in g.mutants(d) if m[0].startswith(('unknown', 'drop registry', 'text', 'num', 'len', 'size', 'dur'))]
                    d = gen.edit(d, rng.choice(ms)[2]) if ms else d
                first = len(sc.items)
                for t in chain[i:]:
                    sc.add(t['name'], d, runs, 'version {} of {}'.format(i, s['name']))
                for k in range(1, len(chain) - i):
                    pairs.append((chain[i]['name'], chain[i + k]['name'], d, first, first + k, whats[i * stride:(i + k) * stride]))
    sc.execute()
    common.log('{} documents, {} runs'.format(len(sc.items), sc.nruns))
    ctx.traces += sc.nruns
    ctx.count('pairs_of_schemas_and_documents', len(pairs))
    items, back = [], []
    for pair in pairs:
        by = [{r['lang']: r for r in sc.obs[x]['runs']} for x in pair[3:5]]
        for lang in ('py', 'go', 'cpp'):
            if lang in by[0] and lang in by[1]:
                items.append({'s': pair[0], 't': pair[1], 'lang': lang, 'doc': enc.value(pair[2]), 'a': by[0][lang], 'b': by[1][lang]})
                back.append(pair)
    ctx.count('accepted_by_the_older', sum(1 for it in items if not it['a']['errs'] and not it['a']['crash']))
    common.dump(common.scratch() / 'c17-schemas.json', {'schemas': {n: t for _, _, ts in sims for n, t in ts.items()}})
    consts = {'SchemaFile': tlc.tla_str(str(common.scratch() / 'c17-schemas.json')),
              'ValidZones': tlc.tla_set(tlc.ZONES), 'OpenZones': tlc.tla_set(tlc.OPEN_ZONES)}
    for n, why in tlc.judge('MapryEvolved', items, 'c17', constants=consts, ctx=ctx):
        old, new, doc, _, _, whats = back[n - 1]
        it = items[n - 1]
        ctx.violation('{} ({}) [{} -> {}: {}]'.format(why, it['lang'], old, new, '; '.join(whats)), {
            'older': model.describe(bench.schemas[old]), 'newer': model.describe(bench.schemas[new]), 'steps': whats, 'document': doc,
            'observed': [it['a'], it['b']]}, group=(it['lang'], why.split(':')[0]))
    common.log('judged')
    for item, lang, cap, clause, detail in sc.validate('c17', ctx=ctx):
        if lang == 'all':
            continue
        schema, doc, _, label = sc.items[item - 1][:4]
        ctx.violation('{} ({}): {} [{}; {}]'.format(clause, lang, detail, schema, label), {
            'clause': clause, 'lang': lang, 'detail': detail, 'schema': model.describe(bench.schemas[schema]), 'document': doc,
            'observed': [r for r in sc.obs[item - 1]['raw'] if r[0] == lang]}, group=(clause, lang))
