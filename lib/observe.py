"""Turn raw outcomes of generated programs into observations for TLC."""
import json
import re

import common
import enc
import model
import names
import run as runmod
import tlc


def parse_num(text):
    try:
        return enc.number(int(text))
    except ValueError:
        f = float(text)
        if f != f or f in (float('inf'), float('-inf')):
            return {'neg': False, 'i': [], 'f': [], 'fl': True, 'nan': True}
        return enc.number(f)


def dump(raw, t, s, lang):
    """Encode a dumped value; the type only helps to name Go fields."""
    if raw is None:
        return {'k': 'nil'}
    if isinstance(raw, bool):
        return {'k': 'bool', 'b': raw}
    if isinstance(raw, list):
        tv = t['v'] if t and t['k'] == 'array' else None
        return {'k': 'arr', 'e': [dump(x, tv, s, lang) for x in raw]}
    if 'n' in raw:
        return dict({'k': 'num'}, **parse_num(raw['n']))
    if 's' in raw:
        return {'k': 'str', 's': raw['s'], 'c': enc.cps(raw['s'])}
    if 'p' in raw:
        return {'k': 'path', 's': raw['p'], 'c': enc.cps(raw['p'])}
    for key, kind in (('d', 'date'), ('t', 'time'), ('dt', 'datetime'), ('tm', 'tm')):
        if key in raw:
            v = list(raw[key])
            return {'k': kind, 'v': v}
    if 'u' in raw:
        return {'k': 'dur', 'ns': enc.number(int(raw['u']))}
    if 'z' in raw:
        return {'k': 'zone', 's': raw['z']}
    if 'm' in raw:
        tv = t['v'] if t and t['k'] == 'map' else None
        return {'k': 'map', 'o': bool(raw.get('o')),
                'm': [{'n': k, 'v': dump(x, tv, s, lang)} for k, x in raw['m']]}
    if 'r' in raw:
        if raw['r'] is None:
            return {'k': 'ref', 'cls': '', 'id': ''}
        cls, key = raw['r']
        if lang == 'go':
            cls = {names.ucamel(c.get('plural') or runmod.s_plural(c)): c['name']
                   for c in s['classes']}.get(cls, cls)
        return {'k': 'ref', 'cls': cls, 'id': key}
    if 'e' in raw:
        comp = None
        if t and t['k'] == 'embed':
            comp = model.composite(s, t['name'])
        return {'k': 'emb', 'm': props(raw['e'], comp, s, lang)}
    return {'k': 'x', 's': str(raw.get('x'))}


def props(pairs, comp, s, lang):
    res = []
    by = {}
    if comp is not None:
        for p in comp['props']:
            by[names.ucamel(p['name']) if lang == 'go' else p['name']] = p
    seen = set()
    for n, v in pairs:
        p = by.get(n)
        seen.add(p['name'] if p else n)
        res.append({'n': p['name'] if p else n,
                    'v': dump(v, p['t'] if p else None, s, lang)})
    if lang == 'go' and comp is not None:
        for p in comp['props']:
            # a nil slice or map is an empty one
            if p['name'] not in seen and not p['opt'] and p['t']['k'] in ('array', 'map'):
                res.append({'n': p['name'], 'v': {'k': 'arr', 'e': []} if p['t']['k'] == 'array'
                            else {'k': 'map', 'o': False, 'm': []}})
    return res


def graph(raw, s, lang):
    by_go = {names.ucamel(c.get('plural') or runmod.s_plural(c)): c for c in s['classes']}
    by = {c['name']: c for c in s['classes']}
    regs = []
    for entry in raw['regs']:
        name, insts = entry[0], entry[-1]
        c = by_go.get(name) if lang == 'go' else by.get(name)
        regs.append({'cls': c['name'] if c else name,
                     'o': bool(entry[1]) if lang == 'py' else False,
                     'insts': [{'key': k, 'id': i if isinstance(i, str) else '',
                                'm': props(m, c, s, lang)} for k, i, m in insts]})
    return {'m': props(raw['m'], s, s, lang), 'regs': regs}


def ser(raw, lang):
    """Encode written JSON."""
    if lang == 'py':
        if isinstance(raw, dict):
            if 'n' in raw:
                return dict({'k': 'num'}, **parse_num(raw['n']))
            if 'a' in raw:
                return {'k': 'arr', 'e': [ser(x, lang) for x in raw['a']]}
            if 'm' in raw:
                return {'k': 'obj', 'o': raw['o'], 'm': [
                    {'n': k, 'c': enc.cps(k), 'r': repr(k), 'v': ser(x, lang)}
                    for k, x in raw['m']]}
            return {'k': 'x', 's': str(raw)}
        return enc.value(raw)
    return enc.value(raw)


def ser_plain(raw, lang):
    """The written JSON as a plain Python value."""
    if lang != 'py':
        return raw
    if isinstance(raw, dict):
        if 'n' in raw:
            try:
                return int(raw['n'])
            except ValueError:
                return float(raw['n'])
        if 'a' in raw:
            return [ser_plain(x, lang) for x in raw['a']]
        if 'm' in raw:
            return {k: ser_plain(x, lang) for k, x in raw['m']}
    return raw


def json_names(s):
    if '_json' not in s:
        s['_json'] = sorted({p['json'] for c in [s] + s['classes'] + s['embeds']
                             for p in c['props']})
    return s['_json']


def mentioned(msg, candidates):
    """The JSON names which occur in the message (as words if they are words)."""
    words = set(re.findall(r'\w+', msg))
    return [c for c in candidates
            if (c in words if re.fullmatch(r'\w+', c) else c in msg)]


def observation(raw, s, lang, cap):
    o = {'lang': lang, 'cap': cap, 'crash': raw.get('crash', ''),
         'errs': [{'ref': r, 'w': mentioned(m, json_names(s))} for r, m in raw.get('errs', [])],
         'graph': [], 'ser': [], 'notes': raw.get('notes', [])}
    if 'noload' in raw:
        o['crash'] = 'noload: ' + raw['noload']
    if raw.get('graph') is not None:
        o['graph'] = [graph(raw['graph'], s, lang)]
    if 'ser' in raw:
        o['ser'] = [ser(raw['ser'], lang)]
    return o


class Scenario:
    """Documents to run against the schemas of a bench."""

    def __init__(self, bench, ref='ref'):
        self.bench = bench
        self.ref = ref
        self.items = []     # [schema, doc, [(lang, cap, ordered)]]

    def add(self, schema, doc, runs, label='', ref=None):
        self.items.append([schema, doc, runs, label, ref or self.ref])

    def execute(self):
        """Run everything; fills self.obs with one entry per item."""
        per = {}
        for i, (schema, doc, runs, _, ref) in enumerate(self.items):
            text = json.dumps(doc)
            for lang, cap, ordered in runs:
                if self.bench.ok(schema, lang):
                    per.setdefault(lang, []).append(
                        (i, cap, [schema, text, ref, cap, ordered]))
        self.obs = []
        for schema, doc, _, label, ref in self.items:
            self.obs.append({'id': len(self.obs) + 1, 's': schema, 'ref': ref,
                             'doc': doc, 'runs': [], 'raw': []})
        import threading
        results = {}

        def work(lang):
            results[lang] = self.bench.run(lang, [x[2] for x in per[lang]])
        threads = [threading.Thread(target=work, args=(l,)) for l in per]
        errors = []
        old_hook = threading.excepthook

        def hook(args):
            errors.append(args.exc_value)
        threading.excepthook = hook
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        threading.excepthook = old_hook
        if errors:
            raise errors[0]
        self.nruns = 0
        for lang, outs in results.items():
            for (i, cap, job), raw in zip(per[lang], outs):
                s = self.bench.schemas[self.items[i][0]]
                self.obs[i]['raw'].append((lang, cap, job[4], raw))
                self.obs[i]['runs'].append(observation(raw, s, lang, cap))
                self.nruns += 1
        return self

    def tla_items(self):
        return [{'id': o['id'], 's': o['s'], 'ref': o['ref'], 'doc': enc.value(o['doc']),
                 'runs': o['runs']} for o in self.obs if o['runs']]

    def tla_schemas(self, items):
        # only those which something was read for
        return {n: model.tla_schema(self.bench.schemas[n]) for n in sorted({x['s'] for x in items})}

    def validate(self, tag, **kw):
        items = self.tla_items()
        return tlc.validate(items, self.tla_schemas(items), tag=tag, **kw)
