"""C06: the generated programs of the languages agree on every document."""
import json

import common
import deser
import gen
import observe
import probes

CLAUSES = {'disagree', 'written differently'}
SECOND = {'rejected', 'wrong value', 'written differently', 'disagree'}


def run(ctx):
    n, docs, per = (40, 4, 60) if common.THOROUGH else (8, 2, 45)
    ex = deser.Explorer(ctx, gen.systematic() + gen.grids() + gen.random_schemas(n, 'd'), 'c06')
    runs = [('py', 1, False), ('go', 1, False), ('cpp', 1, False)]
    ex.conforming(8, runs)
    ex.single(per, docs, runs)
    ex.grid(runs)
    ex.judge(CLAUSES)
    # what one language wrote is read by all the others
    first = ex.sc
    ex.sc = observe.Scenario(ex.bench)
    seen = set()
    for (schema, _, _, _, _), o in zip(first.items, first.obs):
        for lang, cap, _, raw in o['raw']:
            if raw.get('errs') or 'ser' not in raw:
                continue
            doc = observe.ser_plain(raw['ser'], lang)
            text = json.dumps(doc)
            if 'null' in text or (schema, text) in seen:
                # JSON null is outside of the common range
                continue
            seen.add((schema, text))
            ex.sc.add(schema, doc, runs, 'written by ' + lang)
    k = 6000 if common.THOROUGH else 900
    if len(ex.sc.items) > k:
        ex.sc.items = ex.rng.sample(ex.sc.items, k)
    ctx.count('documents_written_and_read_again', len(ex.sc.items))
    ex.tag = 'c06-second'
    ex.judge(SECOND)
    probes.run(ctx)
