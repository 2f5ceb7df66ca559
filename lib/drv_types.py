"""Runs inside the environment of /repo: query the types of schemas.

stdin: a JSON list of descriptions; stdout: a JSON list of observations.
"""
import collections
import json
import multiprocessing
import sys
import warnings

warnings.simplefilter('ignore')
import mapry  # noqa: E402
import mapry.parse  # noqa: E402

sys.setrecursionlimit(3000)
KINDS = [(mapry.Boolean, 'boolean'), (mapry.Integer, 'integer'), (mapry.Float, 'float'), (mapry.String, 'string'), (mapry.Path, 'path'),
         (mapry.Date, 'date'), (mapry.Time, 'time'), (mapry.Datetime, 'datetime'), (mapry.TimeZone, 'time_zone'), (mapry.Duration, 'duration'),
         (mapry.Array, 'array'), (mapry.Map, 'map'), (mapry.Class, 'class'), (mapry.Embed, 'embed'), (mapry.Graph, 'graph')]


def plain(t):
    k = [name for cls, name in KINDS if isinstance(t, cls)][0]
    d = {'k': k}
    if k in ('array', 'map'):
        d['v'] = plain(t.values)
    elif k in ('class', 'embed'):
        d['name'] = t.name
    return d


def observe(text):
    g = mapry.parse.schema_from_mapping(json.loads(text, object_pairs_hook=collections.OrderedDict), '#').graph
    starts = [g] + list(g.classes.values()) + list(g.embeds.values())
    for c in list(starts):
        for p in c.properties.values():
            t = p.type
            while isinstance(t, (mapry.Array, mapry.Map)):
                starts.append(t)
                t = t.values

    def ask():
        return {'needs': [[plain(t), [k for q, k in KINDS if mapry.needs_type(a_type=t, query=q)]] for t in starts],
                'refs': [[c.name, [r.name for r in mapry.references(a_type=c)]] for c in list(g.classes.values()) + list(g.embeds.values())],
                'iter': [[plain(t)['k'], ref] for t, ref in mapry.iterate_over_types(graph=g)]}
    res = ask()
    assert all(g.classes[r.name] is r for c in starts[1:] if isinstance(c, (mapry.Class, mapry.Embed)) for r in mapry.references(a_type=c)), 'a class from elsewhere'
    assert ask() == res, 'another answer when asked again'
    return res, g


def one(text):
    try:
        res, kept = observe(text)
        # the same schema elsewhere in the memory
        for n in (3, 40):
            kept = [kept, [object() for _ in range(n)]]
            again, g = observe(text)
            assert again == res, 'another answer for the same schema'
            kept.append(g)
        return dict(res, crash='')
    except Exception as exc:  # pylint: disable=broad-except
        return {'crash': '{}: {}'.format(type(exc).__name__, exc)[:200], 'needs': [], 'refs': [], 'iter': []}


def main():
    jobs = json.load(sys.stdin)
    with multiprocessing.Pool(int(sys.argv[1])) as pool:
        json.dump(pool.map(one, jobs, chunksize=8), sys.stdout)


if __name__ == '__main__':
    main()
