"""Runs inside the environment of /repo: which mappings of generated Python are
ordered? Arguments as of drv_py; jobs are [schema id, document text, mode,
salt, ignored], mode: 'all', 'none' or 'mixed' mappings of the document are
ordered."""
import collections
import json
import sys
import warnings
import zlib

warnings.simplefilter('ignore')
import drv_py  # noqa: E402


def tree(v):
    if isinstance(v, dict):
        return {'k': 'map', 'o': isinstance(v, collections.OrderedDict), 'm': [{'n': k, 'v': tree(x)} for k, x in v.items()]}
    if isinstance(v, list):
        return {'k': 'arr', 'e': [tree(x) for x in v]}
    return {'k': 'leaf', 's': repr(v)}


def memory(sch, v):
    if type(v) in sch.embed_of:
        return {'k': 'emb', 'm': members(sch, v, sch.embed_of[type(v)]['props'])}
    if isinstance(v, dict):
        return {'k': 'map', 'o': isinstance(v, collections.OrderedDict), 'm': [{'n': k, 'v': memory(sch, x)} for k, x in v.items()]}
    if isinstance(v, list):
        return {'k': 'arr', 'e': [memory(sch, x) for x in v]}
    return {'k': 'leaf', 's': ''}


def members(sch, obj, props):
    return [{'n': name, 'v': memory(sch, getattr(obj, attr))} for name, attr in props if getattr(obj, attr) is not None]


def parts(sch, graph):
    """The instances, and the embeddables at any depth."""
    found = []

    def rec(v):
        if type(v) in sch.embed_of:
            e = sch.embed_of[type(v)]
            found.append((e, v))
            for _, attr in e['props']:
                rec(getattr(v, attr))
        elif isinstance(v, dict):
            for x in v.values():
                rec(x)
        elif isinstance(v, list):
            for x in v:
                rec(x)
    for _, attr in sch.d['props']:
        rec(getattr(graph, attr))
    for c in sch.d['classes']:
        for inst in getattr(graph, c['attr']).values():
            found.append((c, inst))
            for _, attr in c['props']:
                rec(getattr(inst, attr))
    return found


def one(sch, text, mode, salt):
    def hook(pairs):
        if mode == 'all' or mode == 'mixed' and zlib.crc32((salt + json.dumps([p[0] for p in pairs])).encode()) % 2:
            return collections.OrderedDict(pairs)
        return dict(pairs)
    doc = json.loads(text, object_pairs_hook=hook)
    errors = sch.parse.Errors(5)
    graph = sch.load(doc, '#', errors)
    if graph is None:
        return {'rejected': [e.message for e in errors.values()]}
    res = {'given': tree(doc), 'props': members(sch, graph, sch.d['props']),
           'regs': {c['name']: {'o': isinstance(getattr(graph, c['attr']), collections.OrderedDict),
                                'm': [{'n': k, 'v': members(sch, i, c['props'])} for k, i in getattr(graph, c['attr']).items()]}
                    for c in sch.d['classes']},
           'asked': tree(sch.save(graph, ordered=True)), 'unasked': tree(sch.save(graph, ordered=False)), 'silent': tree(sch.save(graph)), 'parts': []}
    for c, v in parts(sch, graph)[:12]:
        fn = getattr(sch.toj, 'serialize_' + c['snake'])
        res['parts'].append({'c': c['name'], 'props': members(sch, v, c['props']), 'asked': tree(fn(v, ordered=True)), 'unasked': tree(fn(v))})
    return res


def main():
    data = json.load(open(sys.argv[1], encoding='utf-8'))
    sys.path.insert(0, data['root'])
    schemas, out = {}, []
    for ident, text, mode, salt, _ in data['jobs']:
        try:
            if ident not in schemas:
                schemas[ident] = drv_py.Schema(data['schemas'][ident])
            out.append(one(schemas[ident], text, mode, salt))
        except Exception as exc:  # pylint: disable=broad-except
            out.append({'crash': '{}: {}'.format(type(exc).__name__, str(exc)[:300])})
    json.dump(out, open(sys.argv[2], 'w', encoding='utf-8'))


if __name__ == '__main__':
    main()
