"""Exploration of generated deserializers and serializers."""
import collections
import json

import common
import enc
import gen
import model
import observe
import run
import tlc

LANGS = ('py', 'go', 'cpp')


def clean(s):
    return {k: v for k, v in s.items() if not k.startswith('_')}


class Explorer:
    """Schemas, documents and the verdict of the specification on them."""

    def __init__(self, ctx, schemas, tag, langs=LANGS):
        self.ctx = ctx
        self.tag = tag
        self.rng = common.rng('{}:{}'.format(ctx.prop, tag))
        self.picker = gen.Picker(self.rng)
        self.bench = run.Bench(schemas, tag, langs)
        self.schemas = schemas
        self.sc = observe.Scenario(self.bench)
        ctx.count('schemas', len(schemas))
        common.log('{}: built {} schemas'.format(tag, len(schemas)))
        for (name, lang), why in list(self.bench.refused.items()) + list(self.bench.broken.items()):
            # a schema on which the tree at hand gives no program
            ctx.violation(
                'no {} program for an accepted schema: {}'.format(lang, why),
                {'schema': model.describe(self.bench.schemas[name]), 'lang': lang, 'why': why},
                group='no program')

    def runs(self, caps=((1, 'go'), (100, 'py'), (100, 'cpp')), ordered=False):
        return [(lang, cap, ordered) for cap, lang in caps]

    def add(self, s, doc, runs, label, chain='', t=None):
        self.sc.add(s['name'], doc, runs, label)
        self.ctx.keys.add((label, chain, gen.type_key(t)))

    def conforming(self, per_schema, runs, **kw):
        for s in self.schemas:
            if s.get('grid'):
                continue
            for i in range(per_schema):
                g = gen.Gen(s, self.rng)
                self.add(s, g.doc(full=[None, True, False][i % 3], **kw),
                         runs(self.rng) if callable(runs) else runs, 'conforming', s['name'])

    def single(self, per_doc, docs, runs, only=None):
        """Documents with one mutation."""
        for s in self.schemas:
            if s.get('grid'):
                continue
            for i in range(docs):
                g = gen.Gen(s, self.rng)
                d = g.doc(full=[True, None, False][i % 3])
                ms = [m for m in g.mutants(d) if only is None or only(m)]
                for label, chain, e, t in self.picker.pick(ms, per_doc):
                    self.add(s, gen.edit(d, e), runs(self.rng) if callable(runs) else runs, label, chain, t)

    def grid(self, runs, part=1, only=None):
        """The limits of numbers and sizes: documents with one property each."""
        for s in self.schemas:
            if s.get('grid'):
                for label, d, t in gen.grid_docs(s, self.rng):
                    if self.rng.random() < part:
                        self.add(s, d, runs(self.rng) if callable(runs) else runs, label, 'grid', t)

    def multiple(self, per_doc, docs, runs):
        """Documents with several mutations."""
        for s in self.schemas:
            if s.get('grid'):
                continue
            for i in range(docs):
                g = gen.Gen(s, self.rng)
                d = g.doc(full=[True, None][i % 2])
                ms = list(g.mutants(d))
                for _ in range(per_doc):
                    some = self.rng.sample(ms, min(len(ms), self.rng.choice([2, 2, 3, 4, 6])))
                    some = [m for m in some if m[1] != 'graph']
                    self.add(s, gen.edit(d, *[m[2] for m in some]),
                             runs(self.rng) if callable(runs) else runs,
                             'several', '', None)

    def judge(self, clauses, extra_constants=None):
        """Execute, validate and report the clauses of interest."""
        ctx = self.ctx
        self.sc.execute()
        common.log('{}: {} documents, {} runs'.format(self.tag, len(self.sc.items), self.sc.nruns))
        fails = self.sc.validate(self.tag, ctx=ctx)
        common.log('{}: validated'.format(self.tag))
        ctx.traces += self.sc.nruns
        ctx.count('documents', len(self.sc.items))
        ctx.count('runs_of_generated_programs', self.sc.nruns)
        outcomes = collections.Counter()
        for o in self.sc.obs:
            for r in o['runs']:
                outcomes['crashed' if r['crash'] else 'rejected' if r['errs'] else 'accepted'] += 1
        for k, v in outcomes.items():
            ctx.count('runs_' + k, v)
        for o in self.sc.obs[::max(1, len(self.sc.obs) // 2)]:
            ctx.sample({'schema': o['s'], 'document': json.dumps(o['doc'])[:600],
                        'outcomes': [{'lang': r['lang'], 'cap': r['cap'],
                                      'errors': [e['ref'] for e in r['errs']]} for r in o['runs']]})
        for item, lang, cap, clause, detail in fails:
            if clause not in clauses and not (clause == 'crash'):
                ctx.count('other_clauses_broken')
                continue
            schema, doc, _, label = self.sc.items[item - 1][:4]
            raw = [r for r in self.sc.obs[item - 1]['raw'] if lang == 'all' or (r[0] == lang and r[1] == cap)]
            ctx.violation(
                '{} ({}, capacity {}): {} [{}; {}]'.format(clause, lang, cap, detail, schema, label),
                {'clause': clause, 'lang': lang, 'capacity': cap, 'detail': detail, 'mutation': label,
                 'reference': self.sc.obs[item - 1]['ref'],
                 'schema': model.describe(self.bench.schemas[schema]), 'document': doc, 'observed': raw},
                group=(clause, lang))
        return fails
