"""A check: collects coverage, violations and known findings, writes the
evidence, prints the verdict."""
import collections
import json
import sys
import time

import common

KNOWN = common.VERIF / 'known_findings.json'


class Ctx:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cov = collections.OrderedDict()
        self.assumptions = []
        self.violations = []
        self.known_seen = []
        self.keys = set()
        self.listed = {}
        for e in json.loads(KNOWN.read_text()) if KNOWN.exists() else []:
            if isinstance(e, dict) and e.get('property') == prop:
                self.listed[e['id']] = e

    # ------------------------------------------------------------ coverage
    def tlc(self, out):
        import tlc
        gen, distinct = tlc.stats(out)
        self.transitions += gen
        self.states += distinct

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(obj)

    # ------------------------------------------------------------ findings
    def violation(self, what, replay, group=None):
        """Record a violation; of each group only the first few are kept."""
        self.violations.append((group or what, what, replay))

    def finding(self, ident, fails, what, replay=None):
        """The probe of a known finding: does it fail as described?"""
        if not fails:
            return
        if ident in self.listed:
            self.known_seen.append(ident)
            print('KNOWN-FINDING: property={} {}: {}'.format(
                self.prop, ident, self.listed[ident]['what']), flush=True)
        else:
            self.violation(what, replay or {'finding': ident})

    # ------------------------------------------------------------ the end
    def finish(self):
        rdir = common.VERIF / 'evidence' / 'replays'
        rdir.mkdir(parents=True, exist_ok=True)
        for old in rdir.glob('{}-*.json'.format(self.prop)):
            old.unlink()
        per = collections.Counter()
        n = 0
        for group, what, replay in self.violations:
            per[group] += 1
            if per[group] > 2 or n >= 12:
                continue
            n += 1
            path = rdir / '{}-{}.json'.format(self.prop, n)
            path.write_text(json.dumps(dict(
                {'property': self.prop, 'what': what}, **replay),
                indent=1, default=str, ensure_ascii=True))
            print('# {}'.format(what)[:600])
            print('VIOLATION property={} replay={}'.format(self.prop, path), flush=True)
        cov = collections.OrderedDict()
        if self.level == 'model_checking':
            cov['states'] = self.states
            cov['transitions'] = self.transitions
            cov['traces_validated_against_impl'] = self.traces
        cov['samples'] = self.samples or ['none']
        cov.update(self.cov)
        if self.keys:
            cov['distinct_combinations'] = len(self.keys)
        cov['known_findings_seen'] = self.known_seen
        path = common.VERIF / 'evidence' / '{}.json'.format(self.prop)
        path.write_text(json.dumps(collections.OrderedDict([
            ('property', self.prop), ('tier', common.TIER), ('seed', common.SEED),
            ('level', self.level), ('coverage', cov), ('assumptions', self.assumptions),
            ('wall_s', round(time.time() - self.t0, 1)),
            ('violations', len(self.violations))]), indent=1, default=str) + '\n')
        common.log('{}: {} violations, {} traces, {} states'.format(
            self.prop, len(self.violations), self.traces, self.states))
        return 1 if self.violations else 0
