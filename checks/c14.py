"""C14: generation is deterministic and settings never change semantics."""
import concurrent.futures
import copy
import json
import pathlib
import re
import shutil

import common
import gen
import model
import observe
import run as runmod
import tlc
import variants

LANGS = ['py', 'go', 'cpp']


# ------------------------------------------------------------- determinism
def twin(s, rng, name):
    """A schema which shares names with the other but not (all of) the meaning."""
    v = copy.deepcopy(s)
    comps = [c for c in [v] + v['classes'] + v['embeds'] if c['props']]
    for _ in range(rng.choice([1, 1, 2, 4])):
        c = rng.choice(comps)
        p = rng.choice(c['props'])
        what = rng.randrange(7)
        if what == 0:
            q = rng.choice(c['props'])
            p['t'], q['t'] = q['t'], p['t']
        elif what == 1:
            p['t'] = rng.choice(gen.NUMBERS + gen.TEXTTYPES + gen.MOMENTS)[1]
        elif what == 2:
            p['opt'] = not p['opt']
        elif what == 3:
            p['t'] = rng.choice([model.arr(p['t'], min=1), model.mp(p['t']), model.arr(p['t'], max=3)])
        elif what == 4:
            rng.shuffle(c['props'])
        elif what == 5 and len(c['props']) > 1:
            c['props'].remove(p)
        else:
            c['desc'] = p['desc'] = rng.choice(variants.LINES)
    if rng.random() < .3:
        v = variants.variant(v, 0, variants.pairs(rng, 1, variants.POOLS)[0], rng)
    v['name'] = s['name']
    return v


def pool(rng, groups):
    """Groups of schemas with the same names in them."""
    bases = gen.systematic() + gen.random_schemas(24 if common.THOROUGH else 10, 'c14')
    res = []
    for g in range(groups):
        # one of them with many types
        some = [rng.choice([b for b in bases if b['name'] in ('wmix', 'wtime', 'opts', 'plain', 'set2', 'oddnames')])]
        some.append(rng.choice([b for b in bases if b is not some[0]]))
        vs = {}
        for b, s in enumerate(some):
            for j in range(4):
                v = copy.deepcopy(s) if j == 0 else twin(s, rng, j)
                v['name'] = 'shared'
                if rng.random() < .6:
                    # all the settings (date.h as well: nothing is compiled here)
                    v['cpp'].update({'path_as': rng.choice(['std::filesystem::path', 'boost::filesystem::path']),
                                     'optional_as': rng.choice(['std::optional', 'boost::optional', 'std::experimental::optional']),
                                     'datetime_library': rng.choice(['date.h', 'date.h', 'ctime'])})
                if j == 3:
                    v['langs'] = rng.sample(LANGS, rng.randint(0, 3))
                doc = model.describe(v)
                # other names of the packages and the like
                for lang, key, val in (('go', 'package', 'pk{}{}'), ('cpp', 'namespace', 'na{}::nb{}'), ('py', 'module_name', 'mod{}.sub{}')):
                    if lang in doc and rng.random() < 0.6:
                        doc[lang][key] = val.format(b, j)
                valid = True
                if b == 1 and j == 2:
                    valid = False
                    rng.choice([lambda: doc.pop('description'), lambda: doc.update(surplus=1),
                                lambda: doc.update(classes=[{'name': 'lower'}])])()
                vs['{}{}.{}'.format(s['name'], j, g)] = {
                    'text': json.dumps(doc), 'valid': valid, 'langs': v['langs'], 'name': v['gname']}
        res.append(vs)
    return res


def tiny(rng, g):
    """Small schemas which differ in their settings: they easily take the place of each other in the memory."""
    vs = {}
    for j in range(6):
        s = model.S('shared', [model.P('p', model.T(rng.choice(['integer', 'string', 'date', 'path', 'time_zone'])))])
        doc = model.describe(variants.variant(s, j, variants.pairs(rng, 1, variants.POOLS)[0], rng))
        for lang, key, val in (('go', 'package', 'pk{}'), ('cpp', 'namespace', 'na{}::nb'), ('py', 'module_name', 'mod{}.sub')):
            doc[lang][key] = val.format(j)
        vs['tiny{}.{}'.format(j, g)] = {'text': json.dumps(doc), 'valid': True, 'langs': list(LANGS), 'name': 'tiny'}
    return vs


def environments(rng):
    return {'e{}'.format(i): env for i, env in enumerate([
        dict(PYTHONHASHSEED='0'), dict(PYTHONHASHSEED='1', LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0'),
        dict(PYTHONHASHSEED=str(rng.randrange(2, 10 ** 6)), TZ='Asia/Kolkata'), dict(PYTHONHASHSEED='random', LC_ALL='POSIX'),
        dict(PYTHONHASHSEED=str(rng.randrange(2, 10 ** 6)), PYTHONOPTIMIZE='1'), dict(PYTHONHASHSEED='random', COLUMNS='40', HOME='/nowhere')])}


def play(number, steps, texts, env, k=0):
    """Replay the steps of one process."""
    at = common.scratch() / 'c14-{}-{}'.format(number, k)
    at.mkdir()
    env = dict(env)
    env['PYTHONPATH'] = '{}:{}'.format(common.REPO, runmod.LIB)
    cwd = [at, pathlib.Path('/'), common.REPO][(number + k) % 3]
    proc = common.sh([common.PY, str(runmod.LIB / 'drv_session.py')], cwd=cwd, environ=common.env(**env),
                     inp=json.dumps({'texts': texts, 'steps': steps, 'dir': str(at)}))
    shutil.rmtree(str(at))
    if proc.returncode != 0:
        return [{'op': s, 'ok': False, 'err': proc.stderr[-400:], 'files': {}, 'model': 'crashed'} for s in steps]
    return json.loads(proc.stdout)


def session_file(path, vs, envs, files):
    common.dump(path, {'variants': {n: {k: x for k, x in v.items() if k != 'text'} for n, v in vs.items()},
                       'envs': list(envs), 'files': files})
    return tlc.tla_str(str(path))


def design(ctx):
    """The state machine on a small universe, and what it finds if something is remembered under a wrong key."""
    vs = {n: {'valid': n != 'x', 'name': nm, 'langs': langs, 'text': '', 'model': n}
          for n, nm, langs in [('a', 'G', ['py', 'go']), ('b', 'G', ['py']), ('c', 'H', ['py', 'go', 'cpp']), ('x', 'G', [])]}
    f = session_file(common.scratch() / 'c14-small.json', vs, ['e'], {})
    for key, sound in (('none', True), ('content', True), ('name', False), ('slot', False)):
        code, out = tlc.run('MapryGenerate', {'SessionFile': f, 'Depth': '6' if common.THOROUGH else '5', 'Sim': 'FALSE', 'Key': tlc.tla_str(key), 'Churn': 'FALSE'},
                            spec='GenerateSpec', invariants=['Functional'], constraint='Shallow', tag='c14-' + key)
        broken = 'Invariant Functional is violated' in out
        if broken == sound or (sound and code != 0):
            raise tlc.TlcError(out[-3000:])
        ctx.tlc(out)


def determinism(ctx):
    design(ctx)
    common.log('design checked')
    rng = common.rng('c14')
    groups, per, depth = (30, 20, 60) if common.THOROUGH else (6, 6, 40)
    gs = pool(rng, groups)
    gs += [tiny(rng, groups + k) for k in range(4 if common.THOROUGH else 2)]
    envs = environments(rng)
    # the reference: each schema in a process of its own
    jobs = []
    for g in gs:
        for n, v in g.items():
            steps = [{'op': 'load', 'slot': 's1', 'v': n}]
            steps += [{'op': 'gen', 'slot': 's1', 'lang': lang, 'how': 'cli'} for lang in v['langs'] if v['valid']]
            jobs.append((n, v, steps))
    with concurrent.futures.ThreadPoolExecutor(common.NCPU) as ex:
        outs = list(ex.map(lambda i: play(10 ** 6 + i, jobs[i][2], {jobs[i][0]: jobs[i][1]['text']}, envs['e0']), range(len(jobs))))
    files = {}
    for (n, v, _), sts in zip(jobs, outs):
        v['model'] = sts[0].get('model', '')
        files[n] = {lang: {} for lang in LANGS}
        for st in sts[1:]:
            files[n][st['op']['lang']] = st['files']
            # a variant which some language refuses is not what this is about
            if not st['ok']:
                v['langs'] = [x for x in v['langs'] if x != st['op']['lang']]
                ctx.count('refused_variants')
    common.log('reference generated')

    def simulate(job):
        i, churn = job
        deep = 5 * depth if i >= groups else depth
        f = session_file(common.scratch() / 'c14-{}{}.json'.format(i, 'c' if churn else ''), gs[i], envs, {})
        code, out = tlc.run('MapryGenerate', {'SessionFile': f, 'Depth': str(deep), 'Sim': 'TRUE', 'Key': '"none"',
                                              'Churn': 'TRUE' if churn else 'FALSE'}, spec='GenerateSpec',
                            invariants=['Functional'], workers=1, tag='c14-sim{}{}'.format(i, 'c' if churn else ''), heap='1g',
                            extra=['-simulate', 'num={}'.format(max(2, per // 3) if churn else per), '-depth', str(deep + 3), '-seed', str(common.SEED * 1000 + i)])
        if code != 0:
            raise tlc.TlcError(out[-4000:])
        m = re.search(r'(\d+) states checked', out)
        return [(i, json.loads(t)) for t in tlc.printed(out, 'HIST')], int(m.group(1)) if m else 0
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        sims = list(ex.map(simulate, [(i, churn) for i in range(len(gs)) for churn in ((True,) if i >= groups else (False, True) if common.THOROUGH else (False,))]))
    ctx.transitions += sum(n for _, n in sims)
    hists = [h for hs, _ in sims for h in hs]
    common.log('{} sessions simulated'.format(len(hists)))

    def replay(k):
        i, h = hists[k]
        texts = {n: v['text'] for n, v in gs[i].items()}
        res, part, env, n = [], [], None, 0
        for op in h + [{'op': 'start', 'env': None}]:
            if op['op'] == 'start':
                if env is not None:
                    res += [{'op': {'op': 'start', 'env': env}}] + play(k, part, texts, envs[env], n)
                    n += 1
                part, env = [], op['env']
            else:
                part.append(op)
        return {'steps': res}
    with concurrent.futures.ThreadPoolExecutor(common.NCPU) as ex:
        items = list(ex.map(replay, range(len(hists))))
    common.log('{} sessions replayed'.format(len(items)))
    ctx.traces += len(items)
    ctx.count('sessions', len(items))
    ctx.count('processes', sum(1 for it in items for st in it['steps'] if st['op']['op'] == 'start'))
    ctx.count('generations', sum(1 for it in items for st in it['steps'] if st['op']['op'] == 'gen'))
    ctx.sample({'session': [st['op'] for st in items[0]['steps']]})
    allv = {n: v for g in gs for n, v in g.items()}
    f = session_file(common.scratch() / 'c14-all.json', allv, envs, files)
    for n, why in tlc.judge('MapryGenerateRun', items, 'c14', constants={'SessionFile': f}, ctx=ctx):
        i, h = hists[n - 1]
        ctx.violation(why, {'session': [dict(st, op=dict(st['op'], **({'env': envs[st['op']['env']]} if st['op']['op'] == 'start' else {})))
                                        for st in items[n - 1]['steps']],
                            'schemas': {m: v['text'] for m, v in gs[i].items()}},
                      group=re.sub(r'step \d+: |\b\w+\d\.\d+\b', '', why)[:60])


# ------------------------------------------------------------- settings
def plain(m):
    """Whether the mutation has nothing to do with the representation: path objects
    normalize texts, and a time zone kept as text is not looked up."""
    label, _, e, t = m
    if t is not None and t['k'] == 'time_zone' and label.startswith(('zone', 'text')):
        return label.startswith('zone ') and label[5:] in tlc.ZONES
    if t is not None and t['k'] in ('path', 'time_zone') and e[0] == 'put' and isinstance(e[2], str):
        return t['k'] == 'path' and str(pathlib.PurePosixPath(e[2])) == e[2]
    return True


def normal(s, doc):
    """Is every path in the document in its normal form?"""
    if not isinstance(doc, dict):
        return True
    g = gen.Gen(s, None)
    for path, what, t, _ in g.walk(doc):
        if what == 'value' and t['k'] == 'path':
            x = doc
            for k in path:
                x = x[k]
            if isinstance(x, str) and str(pathlib.PurePosixPath(x)) != x:
                return False
    return True


def canon(x):
    return json.dumps(x, sort_keys=True)


def neutrality(ctx):
    rng = common.rng('c14-settings')
    bases = {s['name']: s for s in gen.systematic()}
    names = ['wtext', 'wmix', 'nest', 'refs', 'opts', 'renamed', 'wdate'] if not common.THOROUGH else list(bases)
    some = [bases[n] for n in names] + gen.random_schemas(10 if common.THOROUGH else 3, 'c14n')
    fams = variants.families(some, 5 if common.THOROUGH else 3, 'c14')
    schemas = [v for f in fams for v in f]
    bench = runmod.Bench(schemas, 'c14')
    common.log('{} variants built'.format(len(schemas)))
    ctx.count('variants', len(schemas))
    for (name, lang), why in list(bench.refused.items()) + list(bench.broken.items()):
        ctx.violation('settings: no {} program for {}: {}'.format(lang, name, why),
                      {'schema': model.describe(bench.schemas[name]), 'lang': lang, 'why': why}, group='no program ' + lang)
    sc = observe.Scenario(bench)
    runs = [('py', 100, False), ('go', 1, False), ('cpp', 100, False)]
    origin = []
    picker = gen.Picker(rng)
    ndoc, nmut = (12, 60) if common.THOROUGH else (5, 14)
    for fam in fams:
        s = fam[0]
        for i in range(ndoc):
            g = gen.Gen(s, rng)
            for _ in range(40):
                d = g.doc(full=[True, None, False][i % 3])
                if normal(s, d):
                    break
            else:
                continue
            docs = [('conforming', d)]
            for label, chain, e, t in picker.pick([m for m in g.mutants(d) if plain(m)], nmut):
                docs.append((label, gen.edit(d, e)))
                ctx.keys.add((label, chain, gen.type_key(t)))
            for label, doc in docs:
                if not normal(s, doc):
                    continue
                origin.append((fam, doc, label, len(sc.items)))
                for v in fam:
                    sc.add(v['name'], doc, runs, label)
    sc.execute()
    common.log('{} documents, {} runs'.format(len(origin), sc.nruns))
    ctx.traces += sc.nruns
    ctx.count('documents', len(origin))
    ctx.count('runs_of_generated_programs', sc.nruns)
    items, back = [], []
    for fam, doc, label, first in origin:
        for lang, _, _ in runs:
            rs = []
            for j, v in enumerate(fam):
                for rlang, cap, _, raw in sc.obs[first + j]['raw']:
                    if rlang == lang:
                        rs.append({'v': v['name'], 'crash': raw.get('crash', '') or raw.get('noload', ''), 'errs': [e[0] for e in raw.get('errs', [])],
                                   'written': canon(observe.ser_plain(raw['ser'], lang)) if 'ser' in raw else ''})
            if len(rs) > 1:
                items.append({'lang': lang, 'runs': rs})
                back.append((fam, doc, label, first))
    ctx.count('runs_rejecting', sum(1 for it in items for r in it['runs'] if r['errs']))
    for n, why in tlc.judge('MapryNeutral', items, 'c14n', ctx=ctx):
        fam, doc, label, first = back[n - 1]
        ctx.violation('settings: {} [{}]'.format(why, label), {
            'document': doc, 'schemas': {v['name']: model.describe(v) for v in fam}, 'observed': items[n - 1]},
            group=('settings', items[n - 1]['lang'], why[-30:]))
    for item, lang, cap, clause, detail in sc.validate('c14', ctx=ctx):
        schema, doc, _, label = sc.items[item - 1][:4]
        if lang == 'all':
            continue
        ctx.violation('settings: {} ({}): {} [{}; {}]'.format(clause, lang, detail, schema, label), {
            'clause': clause, 'lang': lang, 'detail': detail, 'schema': model.describe(bench.schemas[schema]), 'document': doc,
            'observed': [r for r in sc.obs[item - 1]['raw'] if r[0] == lang]}, group=('settings', clause, lang))
    common.log('judged')


def run(ctx):
    determinism(ctx)
    neutrality(ctx)
