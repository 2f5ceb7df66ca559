"""C02: references resolve to the registered instance or are rejected.

The schemas hold references only (in all places), so a wrong value is a wrong
reference, registry or identifier."""
import common
import deser
import gen
import model

CLAUSES = {'accepted', 'rejected', 'wrong value', 'neither graph nor errors'}
HOLDS = {'class', 'array', 'map', 'embed'}


def only_refs(t):
    if t['k'] in ('array', 'map'):
        return only_refs(t['v'])
    return t['k'] in ('class', 'embed')


def systematic():
    res = []
    for s in gen.systematic():
        if s['name'] in ('nest', 'refs', 'idents', 'phases', 'opts'):
            for c in [s] + s['classes'] + s['embeds']:
                c['props'] = [p for p in c['props'] if only_refs(p['t'])]
            # an embeddable must hold something
            for c in s['embeds']:
                if not c['props']:
                    c['props'] = [model.P('anything', model.ref(s['classes'][0]['name']))]
            res.append(s)
    return res


def touches(m):
    label, _, _, t = m
    return t is None or t['k'] in HOLDS


def run(ctx):
    n, docs, per = (40, 6, 60) if common.THOROUGH else (9, 3, 40)
    ex = deser.Explorer(ctx, systematic() + gen.reference_schemas(n, 'a'), 'c02')
    runs = [('py', 100, False), ('go', 1, False), ('cpp', 100, False)]
    ex.conforming(20 if common.THOROUGH else 8, runs)
    ex.single(per, docs, runs, only=touches)
    ex.judge(CLAUSES)
