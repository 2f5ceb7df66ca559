"""Runs inside the environment of /repo: dump the object models of schemas.

stdin: a JSON list of [ordered, text of the description, file or null];
stdout: a JSON list of models or exceptions.
"""
import collections
import json
import multiprocessing
import pathlib
import sys
import warnings

warnings.simplefilter('ignore')
import mapry  # noqa: E402
import mapry.parse  # noqa: E402

KINDS = [(mapry.Boolean, 'boolean'), (mapry.Integer, 'integer'), (mapry.Float, 'float'), (mapry.String, 'string'), (mapry.Path, 'path'),
         (mapry.Date, 'date'), (mapry.Time, 'time'), (mapry.Datetime, 'datetime'), (mapry.TimeZone, 'time_zone'), (mapry.Duration, 'duration'),
         (mapry.Array, 'array'), (mapry.Map, 'map'), (mapry.Class, 'class'), (mapry.Embed, 'embed')]


def opt(x):
    return [] if x is None else [x]


def a_type(t, graph):
    k = [name for cls, name in KINDS if type(t) is cls][0]  # pylint: disable=unidiomatic-typecheck
    d = {'k': k}
    if k in ('integer', 'float'):
        for x in [t.minimum, t.maximum]:
            assert not isinstance(x, bool) and (k == 'float' or x is None or isinstance(x, int))
        d.update(min=opt(t.minimum), max=opt(t.maximum), xmin=t.exclusive_minimum, xmax=t.exclusive_maximum)
    elif k in ('string', 'path'):
        d['pattern'] = [] if t.pattern is None else [t.pattern.pattern]
    elif k in ('date', 'time', 'datetime'):
        d['format'] = t.format
    elif k == 'array':
        d.update(min=opt(t.minimum_size), max=opt(t.maximum_size), v=a_type(t.values, graph))
    elif k == 'map':
        d['v'] = a_type(t.values, graph)
    elif k == 'class':
        d.update(name=t.name, same=graph.classes.get(t.name) is t)
    elif k == 'embed':
        d.update(name=t.name, same=graph.embeds.get(t.name) is t)
    return d


def props(c, graph):
    return [{'key': key, 'name': p.name, 'json': p.json, 'description': p.description, 'optional': p.optional, 'ref': p.ref,
             'owned': p.composite is c, 't': a_type(p.type, graph)} for key, p in c.properties.items()]


def dump(s):
    g = s.graph

    def settings(x, keys):
        return [] if x is None else [{k: getattr(x, k) for k in keys}]
    return {'graph': {'name': g.name, 'description': g.description, 'ref': g.ref, 'props': props(g, g)},
            'classes': [{'key': k, 'name': c.name, 'description': c.description, 'plural': c.plural, 'ref': c.ref,
                         'id_pattern': [] if c.id_pattern is None else [c.id_pattern.pattern], 'props': props(c, g)} for k, c in g.classes.items()],
            'embeds': [{'key': k, 'name': c.name, 'description': c.description, 'ref': c.ref, 'props': props(c, g)} for k, c in g.embeds.items()],
            'cpp': settings(s.cpp, ['namespace', 'path_as', 'optional_as', 'datetime_library', 'indention']),
            'go': settings(s.go, ['package']), 'py': settings(s.py, ['module_name', 'path_as', 'timezone_as', 'indention'])}


def one(job):
    ordered, text, file = job
    hook = collections.OrderedDict if ordered else dict
    try:
        mapping = json.loads(text, object_pairs_hook=hook)
        res = dump(mapry.parse.schema_from_mapping(mapping, '#'))
        res['twice'] = dump(mapry.parse.schema_from_mapping(mapping, '#')) == res
        if file is not None:
            pth = pathlib.Path(file)
            pth.write_text(text, encoding='utf-8')
            other = dump(mapry.parse.schema_from_json_file(pth))
            for lst in [[other['graph']], other['classes'], other['embeds']]:
                for c in lst:
                    for x in [c] + c['props']:
                        assert x['ref'].startswith(file + '#'), x['ref']
                        x['ref'] = x['ref'][len(file):]
            other['twice'] = res['twice']
            return {'crash': '', 'got': other}
        return {'crash': '', 'got': res}
    except Exception as exc:  # pylint: disable=broad-except
        return {'crash': '{}: {}'.format(type(exc).__name__, exc)[:300], 'got': {}}


def main():
    jobs = json.load(sys.stdin)
    with multiprocessing.Pool(int(sys.argv[1])) as pool:
        json.dump(pool.map(one, jobs, chunksize=8), sys.stdout)


if __name__ == '__main__':
    main()
