"""Histories of clients: generated by TLC from spec/MapryHistory.tla, replayed
on generated code, judged by TLC with spec/MapryTrace.tla.

A native value is described as: a boolean, {"n": number text}, {"s": text},
{"p": path}, {"tm": [year, month, day, hour, minute, second, us, zone, kind]},
{"u": nanoseconds}, {"z": zone}, a list, {"m": [[key, value]]}, {"e": [[name,
value, Go field]], "cls": name}, {"h": handle}."""
import datetime
import json

import common
import enc
import gen
import model
import names
import observe
import run as runmod
import tlc

DURS = [('P1D', 86400 * 10 ** 9), ('PT1S', 10 ** 9), ('PT0.5S', 5 * 10 ** 8), ('-P1W', -7 * 86400 * 10 ** 9),
        ('PT0S', 0), ('PT1H30M', 5400 * 10 ** 9), ('P2DT3H4M5.000006S', (2 * 86400 + 3 * 3600 + 245) * 10 ** 9 + 6000),
        ('-PT0.25S', -25 * 10 ** 7), ('P400D', 400 * 86400 * 10 ** 9), ('PT59M59.999999S', 3599999999 * 1000),
        ('-P1DT1S', -86401 * 10 ** 9)]


class Maker:
    """Makes pairs of a JSON template and native values."""

    def __init__(self, s, rng):
        self.s, self.rng = s, rng
        self.g = gen.Gen(s, rng)

    def pair(self, t, depth=0):
        rng, k = self.rng, t['k']
        if k == 'class':
            n = rng.randint(0, 2)
            return ({'__hole__': [t['name'], n]}, {'__hole__': [t['name'], n]})
        if k == 'array':
            lo = t.get('min', 0)
            n = rng.randint(lo, max(lo, min(t.get('max', lo + 3), lo + 3))) if depth < 3 else lo
            xs = [self.pair(t['v'], depth + 1) for _ in range(n)]
            return [x[0] for x in xs], [x[1] for x in xs]
        if k == 'map':
            ks = rng.sample(['a', 'b', 'k1', 'x/y', 'é', ''], rng.randint(0, 3)) if depth < 3 else []
            xs = [(key, self.pair(t['v'], depth + 1)) for key in ks]
            return {key: x[0] for key, x in xs}, {'m': [[key, x[1]] for key, x in xs]}
        if k == 'embed':
            v, d = {}, []
            for p in model.composite(self.s, t['name'])['props']:
                if p['opt'] and rng.random() < .5:
                    continue
                x = self.pair(p['t'], depth + 1)
                v[p['json']] = x[0]
                d.append([p['name'], x[1], names.ucamel(p['name'])])
            return v, {'e': d, 'cls': t['name']}
        if k in ('date', 'time', 'datetime'):
            fmt = t.get('fmt', model.DEFAULT_FORMATS[k])
            y, m, d = rng.choice(gen.DATES) if k != 'time' else (0, 1, 1)
            H, M, S = rng.choice(gen.TIMES) if k != 'date' else (0, 0, 0)
            if '%y' in fmt and y == 2038:
                y = 2018
            if '%S' not in fmt and k != 'date':
                S = 0
            text = ''
            dt = datetime.datetime(y or 1970, m, d, H, M, S)
            for tok in fmt:
                text += (tok if not (tok.startswith('%') and len(tok) == 2) else
                         '%04d' % y if tok == '%Y' else dt.strftime(tok))
            return text, {'tm': [y, m, d, H, M, S, 0, None, k]}
        v = rng.choice(DURS)[0] if k == 'duration' else self.g.value(t)
        if k == 'boolean':
            return v, v
        if k == 'integer':
            return v, {'n': str(v)}
        if k == 'float':
            return v, {'n': repr(float(v))}
        if k == 'string':
            return v, {'s': v}
        if k == 'path':
            import pathlib
            # the client gives a path as the library has it
            return v, {'p': v}
        if k == 'time_zone':
            return v, {'z': v}
        if k == 'duration':
            return v, {'u': str(dict(DURS)[v])}
        raise NotImplementedError(k)


def encode_template(v):
    if isinstance(v, dict):
        if '__hole__' in v:
            return {'k': 'hole', 'cls': v['__hole__'][0], 'n': v['__hole__'][1]}
        return {'k': 'obj', 'm': [{'n': k, 'c': enc.cps(k), 'r': repr(k), 'v': encode_template(x)} for k, x in v.items()]}
    if isinstance(v, list):
        return {'k': 'arr', 'e': [encode_template(x) for x in v]}
    return enc.value(v)


def fill(d, at, s, lang):
    """The native description for a language."""
    if isinstance(d, list):
        return [fill(x, at, s, lang) for x in d]
    if isinstance(d, dict):
        if '__hole__' in d:
            return {'h': at[tuple(d['__hole__'])]}
        if 'm' in d:
            return {'m': [[k, fill(x, at, s, lang)] for k, x in d['m']]}
        if 'e' in d:
            return {'cls': d['cls'], 'e': [[n, fill(x, at, s, lang), f] for n, x, f in d['e']]}
        if 'p' in d and lang == 'py' and s['py']['path_as'] == 'str':
            return {'s': d['p']}
        if 'z' in d and lang == 'py' and s['py']['timezone_as'] == 'str':
            return {'s': d['z']}
    return d


IDS = ['i1', 'x y', "o'k", 'p/q', 'j9']


class Histories:
    def __init__(self, s, rng, ncand=4):
        self.s = s
        self.pool = {}
        self.native = {}
        mk = Maker(s, rng)
        comps = [('*', s['props'])] + [(c['name'], c['props']) for c in s['classes']]
        for comp, props in comps:
            self.pool[comp], self.native[comp] = {}, {}
            for p in props:
                pairs = [mk.pair(p['t']) for _ in range(ncand)]
                self.pool[comp][p['name']] = [encode_template(v) for v, _ in pairs]
                self.native[comp][p['name']] = [d for _, d in pairs]
        self.ids = {}
        for c in s['classes']:
            ids = mk.g.identifiers(c, 5) if 'id_re' in c else IDS
            self.ids[c['name']] = [{'s': i, 'c': enc.cps(i)} for i in ids]

    def file(self, path):
        common.dump(path, {'schema': model.tla_schema(self.s), 'pool': self.pool, 'ids': self.ids})

    def constants(self, path, sim, objects, depth):
        return {'File': tlc.tla_str(str(path)), 'MaxObjects': str(objects), 'Depth': str(depth),
                'Sim': 'TRUE' if sim else 'FALSE', 'ValidZones': tlc.tla_set(tlc.ZONES),
                'OpenZones': tlc.tla_set(tlc.OPEN_ZONES)}

    def generate(self, num, depth, objects=6, seed=1, ctx=None):
        path = common.scratch() / 'hist-{}.json'.format(self.s['name'])
        self.file(path)
        code, out = tlc.run('MapryHistory', self.constants(path, True, objects, depth),
                            invariants=['WrittenConforms', 'Roundtrip', 'Stable'], workers=1,
                            extra=['-simulate', 'num={}'.format(num), '-depth', str(depth + 3), '-seed', str(seed)],
                            tag=self.s['name'])
        if code != 0:
            raise tlc.TlcError('MapryHistory failed for {}:\n{}'.format(self.s['name'], out[-4000:]))
        if ctx is not None:
            import re
            m = re.search(r'(\d+) states checked', out)
            ctx.transitions += int(m.group(1)) if m else 0
        return [json.loads(t) for t in tlc.printed(out, 'HIST')]

    def ops(self, hist, lang):
        """The operations for the driver of the language."""
        s = self.s
        reg = {c['name']: names.ucamel(c.get('plural') or runmod.s_plural(c)) for c in s['classes']}
        res = []
        for op in hist:
            o = {k: v for k, v in op.items() if k not in ('doc', 'fill', 'at')}
            if op.get('cls') in reg:
                o['reg'] = reg[op['cls']]
            if 'prop' in op:
                o['field'] = names.ucamel(op['prop'])
            if op['op'] == 'set':
                at = {(c, n): h for c, n, h in op['fill']}
                o['value'] = fill(self.native[op['cls']][op['prop']][op['cand'] - 1], at, s, lang)
            if op['op'] == 'load':
                o['at'] = [[reg[c] if lang == 'go' else c, i, h] for c, i, h in op['at']]
            res.append(o)
        return res


def replay(ctx, bench, hs, hists, tag, langs=('py', 'go', 'cpp'), ordered=False):
    """Replay histories; return the items for MapryTrace and where they are
    from."""
    items, origin = [], []
    for lang in langs:
        jobs, idx = [], []
        for name, lst in hists.items():
            if not bench.ok(name, lang):
                continue
            for h in lst:
                jobs.append([name, hs[name].ops(h, lang), '#', 1, ordered])
                idx.append((name, h))
        for (name, h), raw in zip(idx, bench.run(lang, jobs)):
            s = bench.schemas[name]
            points = [op for op in h if op['op'] in ('save', 'load')]
            if not points:
                continue
            if 'crash' in raw or 'noload' in raw:
                op = points[-1]
                items.append({'id': len(items) + 1, 's': name, 'ref': '#', 'doc': op.get('doc', {'k': 'obj', 'm': []}),
                              'runs': [observe.observation(dict(raw, errs=[]), s, lang, 1)]})
                origin.append((name, lang, h, len(h), raw))
                continue
            outs = raw['outs']
            ctx.count('steps_replayed', len(h))
            for k, (op, out) in enumerate(zip(points, outs)):
                o = observe.observation(out, s, lang, 1)
                o['refusal'] = out.get('refusal', '')
                item = {'id': len(items) + 1, 's': name, 'ref': '#', 'runs': [o], 'refuse': bool(op.get('refused'))}
                # of a refused graph there is no document
                item['doc'] = op.get('doc', {'k': 'obj', 'm': []})
                item['hist'] = op['op']
                items.append(item)
                origin.append((name, lang, h, h.index(op), out))
    return items, origin
