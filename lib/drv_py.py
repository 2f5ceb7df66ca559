"""Runs inside the environment of /repo: drive generated Python modules.

Arguments: a JSON file {"root": directory on the path, "schemas": {id:
{"module", "gname", "classes": [[name, attr, snake, props]], "embeds": ...,
"props"}}, "jobs": [[schema id, document text, ref, capacity, ordered]]}.
Output: one JSON line per job.
"""
import collections
import datetime
import importlib
import json
import pathlib
import sys
import warnings

warnings.simplefilter('ignore')


class Schema:
    def __init__(self, d):
        self.d = d
        mod = d['module']
        self.types = importlib.import_module(mod)
        self.parse = importlib.import_module(mod + '.parse')
        self.fromj = importlib.import_module(mod + '.fromjsonable')
        self.toj = importlib.import_module(mod + '.tojsonable')
        self.load = getattr(self.fromj, d['graph_snake'] + '_from')
        self.save = getattr(self.toj, 'serialize_' + d['graph_snake'])
        self.class_of = {getattr(self.types, c['py']): c for c in d['classes']}
        self.embed_of = {getattr(self.types, e['py']): e for e in d['embeds']}


def dump_value(sch, graph, v):
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, float)):
        return {'n': repr(v)}
    if isinstance(v, str):
        return {'s': v}
    if isinstance(v, pathlib.Path):
        return {'p': str(v)}
    if isinstance(v, datetime.datetime):
        off = v.utcoffset()
        return {'dt': [v.year, v.month, v.day, v.hour, v.minute, v.second,
                       v.microsecond,
                       9999999 if off is None else int(off.total_seconds() // 60)]}
    if isinstance(v, datetime.date):
        return {'d': [v.year, v.month, v.day, 0, 0, 0, 0, 9999999]}
    if isinstance(v, datetime.time):
        return {'t': [0, 0, 0, v.hour, v.minute, v.second, v.microsecond, 9999999]}
    if isinstance(v, datetime.timedelta):
        us = (v.days * 86400 + v.seconds) * 1000000 + v.microseconds
        return {'u': str(us * 1000)}
    if isinstance(v, datetime.tzinfo):
        return {'z': str(v)}
    if isinstance(v, list):
        return [dump_value(sch, graph, x) for x in v]
    if isinstance(v, dict):
        return {'m': [[k, dump_value(sch, graph, x)] for k, x in v.items()],
                'o': isinstance(v, collections.OrderedDict)}
    if type(v) in sch.class_of:
        c = sch.class_of[type(v)]
        for cc in sch.d['classes']:
            reg = getattr(graph, cc['attr'], None)
            if isinstance(reg, dict):
                for key, inst in reg.items():
                    if inst is v:
                        return {'r': [cc['name'], key]}
        return {'r': None, 'c': c['name']}
    if type(v) in sch.embed_of:
        return {'e': dump_props(sch, graph, v, sch.embed_of[type(v)]['props'])}
    return {'x': type(v).__name__}


def dump_props(sch, graph, obj, props):
    res = []
    for name, attr in props:
        if not hasattr(obj, attr):
            res.append([name, {'x': 'no attribute'}])
        else:
            v = getattr(obj, attr)
            if v is not None:
                res.append([name, dump_value(sch, graph, v)])
    return res


def dump_graph(sch, graph):
    regs = []
    for c in sch.d['classes']:
        reg = getattr(graph, c['attr'], None)
        if not isinstance(reg, dict):
            regs.append([c['name'], None, []])
            continue
        regs.append([c['name'], isinstance(reg, collections.OrderedDict),
                     [[key, getattr(inst, 'id', None),
                       dump_props(sch, graph, inst, c['props'])]
                      for key, inst in reg.items()]])
    return {'m': dump_props(sch, graph, graph, sch.d['props']), 'regs': regs}


def dump_json(v):
    """Keep the order and the type of mappings."""
    if isinstance(v, dict):
        return {'o': isinstance(v, collections.OrderedDict),
                'm': [[k, dump_json(x)] for k, x in v.items()]}
    if isinstance(v, list):
        return {'a': [dump_json(x) for x in v]}
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, (int, float)):
        return {'n': repr(v)}
    return {'x': type(v).__name__}


def plain(dumped):
    """Drop whether the mappings are ordered."""
    def rec(x):
        if isinstance(x, list):
            return [rec(y) for y in x]
        if isinstance(x, dict):
            return {k: rec(y) for k, y in x.items() if k != 'o'}
        return x
    return {'m': rec(dumped['m']), 'regs': [[n, rec(i)] for n, _, i in dumped['regs']]}


def run(sch, text, ref, cap, ordered):
    res = {}
    doc = json.loads(
        text, object_pairs_hook=collections.OrderedDict if ordered else None)
    errors = sch.parse.Errors(cap)
    try:
        graph = sch.load(doc, ref, errors)
        res['errs'] = [[e.ref, e.message] for e in errors.values()]
        notes = []
        if res['errs'] and graph is not None:
            notes.append('graph despite errors')
        if not res['errs'] and graph is None:
            notes.append('neither graph nor errors')
        if graph is not None and not res['errs']:
            before = dump_graph(sch, graph)
            res['graph'] = before
            ser = sch.save(graph, ordered=ordered)
            res['ser'] = dump_json(ser)
            before = plain(before)
            if plain(dump_graph(sch, graph)) != before:
                notes.append('graph changed by writing')
            text2 = json.dumps(ser)
            errors2 = sch.parse.Errors(5)
            doc2 = json.loads(
                text2, object_pairs_hook=collections.OrderedDict if ordered else None)
            graph2 = sch.load(doc2, ref, errors2)
            if graph2 is None:
                notes.append('written JSON rejected')
            elif plain(dump_graph(sch, graph2)) != before:
                notes.append('graph differs after a round trip')
        res['notes'] = notes
    except Exception as exc:  # pylint: disable=broad-except
        res['crash'] = '{}: {}'.format(type(exc).__name__, str(exc)[:300])
    return res


def build(sch, v, objs):
    """The native value of the description (see lib/hist.py)."""
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, list):
        return [build(sch, x, objs) for x in v]
    if 'n' in v:
        return float(v['n']) if '.' in v['n'] or 'e' in v['n'] or 'inf' in v['n'] else int(v['n'])
    if 's' in v:
        return v['s']
    if 'p' in v:
        return pathlib.Path(v['p'])
    if 'tm' in v:
        y, mo, d, h, mi, s, us, off, kind = v['tm']
        if kind == 'date':
            return datetime.date(y, mo, d)
        if kind == 'time':
            return datetime.time(h, mi, s)
        zone = None if off is None else datetime.timezone(datetime.timedelta(minutes=off))
        return datetime.datetime(y, mo, d, h, mi, s, tzinfo=zone)
    if 'u' in v:
        return datetime.timedelta(microseconds=int(v['u']) // 1000)
    if 'z' in v:
        import pytz
        return pytz.timezone(v['z'])
    if 'm' in v:
        return {k: build(sch, x, objs) for k, x in v['m']}
    if 'h' in v:
        return objs[v['h']]
    if 'e' in v:
        e = [e for e in sch.d['embeds'] if e['name'] == v['cls']][0]
        attr = dict(e['props'])
        return getattr(sch.types, e['py'])(**{attr[n]: build(sch, x, objs) for n, x, _ in v['e']})
    raise NotImplementedError(v)


def history(sch, ops, ref, ordered):
    """Replay the operations of a client; the outcomes of saving and loading."""
    outs = []
    cls = {c['name']: c for c in sch.d['classes']}
    gname = [n for n in dir(sch.types) if n == sch.d['gpy']][0]
    gattr = dict(sch.d['props'])
    graph = getattr(sch.types, gname)(**{a: None for a in gattr.values()})
    objs = {}
    text = None
    for op in ops:
        kind = op['op']
        c = cls.get(op.get('cls'))
        if kind == 'add':
            attrs = [a for _, a in c['props']]
            inst = getattr(sch.types, c['py'])(id=op['id'], **{a: None for a in attrs})
            objs[op['h']] = inst
            getattr(graph, c['attr'])[op['id']] = inst
        elif kind in ('set', 'clear'):
            owner = graph if op['h'] == 0 else objs[op['h']]
            attr = (gattr if op['h'] == 0 else dict(c['props']))[op['prop']]
            setattr(owner, attr, build(sch, op['value'], objs) if kind == 'set' else None)
        elif kind == 'remove':
            del getattr(graph, c['attr'])[op['key']]
        elif kind == 'readd':
            getattr(graph, c['attr'])[op['key']] = objs[op['h']]
        elif kind == 'rename':
            objs[op['h']].id = op['id']
        elif kind == 'rekey':
            reg = getattr(graph, c['attr'])
            reg[op['key']] = reg.pop(op['old'])
        elif kind == 'save':
            out = {'errs': [], 'notes': []}
            before = dump_graph(sch, graph)
            try:
                ser = sch.save(graph, ordered=ordered)
                text = json.dumps(ser)
                out['graph'] = before
                out['ser'] = dump_json(ser)
            except ValueError as exc:
                out['refusal'] = str(exc)
            if plain(dump_graph(sch, graph)) != plain(before):
                out['notes'].append('graph changed by writing')
            outs.append(out)
        elif kind == 'load':
            errors = sch.parse.Errors(5)
            graph = sch.load(json.loads(text), ref, errors)
            out = {'errs': [[e.ref, e.message] for e in errors.values()], 'notes': []}
            outs.append(out)
            if graph is None:
                break
            out['graph'] = dump_graph(sch, graph)
            objs = {h: getattr(graph, cls[n]['attr'])[key] for n, key, h in op['at']}
    return outs


def main():
    data = json.load(open(sys.argv[1], encoding='utf-8'))
    sys.path.insert(0, data['root'])
    schemas = {}
    out = []
    for ident, text, ref, cap, ordered in data['jobs']:
        if ident not in schemas:
            try:
                schemas[ident] = Schema(data['schemas'][ident])
            except Exception as exc:  # pylint: disable=broad-except
                schemas[ident] = '{}: {}'.format(type(exc).__name__, str(exc)[:300])
        sch = schemas[ident]
        if isinstance(sch, str):
            out.append({'noload': sch})
        else:
            if isinstance(text, list):
                try:
                    out.append({'outs': history(sch, text, ref, ordered)})
                except Exception as exc:  # pylint: disable=broad-except
                    out.append({'crash': '{}: {}'.format(type(exc).__name__, str(exc)[:300])})
            else:
                out.append(run(sch, text, ref, cap, ordered))
    json.dump(out, open(sys.argv[2], 'w', encoding='utf-8'))


if __name__ == '__main__':
    main()
