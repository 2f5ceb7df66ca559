"""C15: the command line tool either generates all files or nothing."""
import concurrent.futures
import copy
import hashlib
import json
import os
import pathlib
import re
import shutil

import common
import gen
import model
import run as runmod
import tlc

LANGS = ['py', 'go', 'cpp']
OWN = ['notes.txt', 'types.go.bak', 'extra.py']
DIRS = {'out': ('out', True), 'deep': ('a/b c/d', True), 'unicode': ('dir é', True), 'link': ('real', True), 'here': ('.', True),
        'file': ('plainfile', False), 'below': ('plainfile/sub', False), 'dangling': ('dangling', False),
        'signs': ('~/@x $HOME*%s', True), 'dots': ('elsewhere/../up', True)}
# names of the schema file
NAMES = ['schema.json'] * 4 + ['sch\u00e9 ma#1%20.json', '@$HOME.json', '~/{x}*.txt', '-s', 'schema.json.d/schema.json']
FILES = {'py': ['__init__.py', 'parse.py', 'fromjsonable.py', 'tojsonable.py'],
         'go': ['types.go', 'parse.go', 'from_jsonable.go', 'from_jsonable_test.go', 'to_jsonable.go', 'to_jsonable_test.go'],
         'cpp': ['types.h', 'parse.h', 'parse.cpp', 'jsoncpp.h', 'jsoncpp.cpp']}
ALL = sum(FILES.values(), [])
USAGES = [[], ['py'], ['py', '--schema', '{s}'], ['rust', '--schema', '{s}', '--outdir', '{o}'], ['go', '--outdir', '{o}'],
          ['--schema', '{s}', '--outdir', '{o}'], ['cpp', '--schema', '{s}', '--outdir', '{o}', '--unknown', 'x'],
          ['py', '{s}', '{o}'], ['py', 'go', '--schema', '{s}', '--outdir', '{o}']]


LIMIT = 'import os, resource, sys; resource.setrlimit(resource.RLIMIT_FSIZE, (int(sys.argv[1]),) * 2); os.execv(sys.argv[2], sys.argv[2:])'


def sha(data):
    return 'own' if data == b'own' else hashlib.sha1(data).hexdigest()[:12]


def with_prop(doc, name, prop):
    doc = copy.deepcopy(doc)
    doc.setdefault('properties', {})[name] = prop
    order = ['name', 'description']
    return {k: doc[k] for k in order + [k for k in doc if k not in order]}


class Pool:
    """Schemas, with what is to be expected of them."""

    def __init__(self, rng):
        self.rng = rng
        docs = [(model.describe(s), list(s['langs'])) for s in gen.systematic() + gen.random_schemas(24 if common.THOROUGH else 8, 'c15')]
        self.docs = [d for d in docs if d[1]]

    def variant(self, kind):
        """Return a description of a variant: bytes or None or 'dir', validity and languages."""
        rng = self.rng
        doc, langs = copy.deepcopy(rng.choice(self.docs))
        there, valid = True, True
        if kind == 'some':
            langs = rng.sample(langs, rng.randint(0, len(langs) - 1))
            for lang in LANGS:
                if lang not in langs:
                    doc.pop(lang, None)
        elif kind == 'clash':
            out = rng.choice(LANGS)
            prop = {'py': ('lambda', {'type': 'integer', 'description': 'clashes.'}),
                    'cpp': ('register', {'type': 'integer', 'description': 'clashes.'}),
                    'go': ('at_time', {'type': 'datetime', 'description': 'clashes.', 'format': 'at 5 on %Y-%m-%d'})}[out]
            doc = with_prop(doc, *prop)
            langs = [x for x in langs if x != out]
        elif kind == 'unicode':
            doc['description'] = doc['description'][:-1] + rng.choice([' é漢字.', ' naïve \U0001f642.', ' \u2028 ſ.'])
        elif kind == 'surrogate':
            doc['description'] = doc['description'][:-1] + ' \ud800.'
            langs = []
        elif kind == 'invalid':
            valid = False
            what = rng.randrange(6)
            if what == 0:
                doc['unexpected'] = 1
            elif what == 1:
                doc = with_prop(doc, 'bad_type', {'type': 'no_such_type', 'description': 'is invalid.'})
            elif what == 2:
                doc = with_prop(doc, 'bad_bounds', {'type': 'integer', 'description': 'is invalid.', 'minimum': 2, 'maximum': 1})
            elif what == 3:
                doc = with_prop(doc, 'bad_pattern', {'type': 'string', 'description': 'is invalid.', 'pattern': '('})
            elif what == 4:
                del doc['description']
            else:
                doc = rng.choice([[], 3, 'text', None, {}, [doc]])
        data = json.dumps(doc, ensure_ascii=kind != 'unicode' or rng.random() < 0.3, indent=rng.choice([None, 2])).encode('utf-8', 'surrogatepass')
        if kind == 'broken':
            valid = False
            data = rng.choice([data[:rng.randrange(len(data) - 1)], data[:-1] + b'\n', b'', b'\n\n', data + b'}', data + b'\n{}', b'{"name": }\n',
                               data.replace(b':', b'=', 1), data[:5] + b'\xff\xfe' + data[5:]])
        if kind in ('missing', 'directory'):
            there, data = False, None if kind == 'missing' else 'dir'
        return {'kind': kind, 'data': data, 'there': there, 'valid': valid, 'langs': langs}


KINDS = ['full', 'full', 'full', 'some', 'some', 'clash', 'clash', 'unicode', 'surrogate', 'invalid', 'broken', 'missing', 'directory']


def reference(variants):
    """What the schemas determine: generated once, apart from all histories."""
    root = common.scratch() / 'c15-ref'
    root.mkdir()
    jobs = []
    for name, v in variants.items():
        if v['there']:
            path = root / (name + '.json')
            path.write_bytes(v['data'])
            for lang in v['langs']:
                jobs.append([name, lang, str(path), str(root / '{}-{}'.format(name, lang))])
    for name, lang, code, err in runmod.generate(jobs):
        at = root / '{}-{}'.format(name, lang)
        for f in FILES[lang]:
            data = (at / f).read_bytes() if (at / f).is_file() else None
            what = 'never generated' if data is None else sha(data)
            variants[name].setdefault('files', {}).setdefault(lang, {})[f] = what
            if data is not None:
                variants[name].setdefault('sizes', {})[what] = len(data)
    shutil.rmtree(str(root))


def snapshot(root, name):
    files = {}
    for base, dirs, names in os.walk(str(root)):
        rel = os.path.relpath(base, str(root))
        for n in dirs:
            if n in ALL:
                files[rel + '/' + n] = 'dir'
        for n in names:
            p = os.path.join(base, n)
            if os.path.normpath(os.path.join(rel, n)) == name:
                continue
            if os.path.islink(p) and n in ('link', 'dangling'):
                continue
            files[rel + '/' + n] = sha(pathlib.Path(p).read_bytes())
    return files


def command(rng, root, args):
    """How the tool is called: none of this makes a difference."""
    seed = str(rng.randrange(1000))
    env = rng.choice([dict(LC_ALL='C.UTF-8'), dict(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0'), dict(LC_ALL='POSIX'),
                      dict(LC_ALL='C.UTF-8', LANG='de_CH.UTF-8')])
    start = rng.choice([['-m', 'mapry'], ['-c', 'import sys, mapry.main; sys.exit(mapry.main.entry_point())']])
    return [common.PY] + start + args, common.env(PYTHONHASHSEED=seed, **env)


def remove(p):
    if p.is_dir():
        p.rmdir()
    elif p.exists():
        p.unlink()


def replay(job):
    number, steps, variants, seed = job
    import random
    rng = random.Random(seed)
    root = common.scratch() / 'c15-{}'.format(number)
    root.mkdir()
    (root / 'real').mkdir()
    (root / 'link').symlink_to('real')
    (root / 'dangling').symlink_to('nowhere')
    (root / 'plainfile').write_bytes(b'own')
    (root / 'elsewhere').mkdir()
    name = rng.choice(NAMES)
    schema = root / name
    schema.parent.mkdir(exist_ok=True, parents=True)
    res = {'before': snapshot(root, name), 'named': name, 'v': steps[0]['v'], 'steps': []}
    current = None
    for op in steps:
        st = {'op': op}
        d = DIRS[op['dir']][0] if 'dir' in op else 'out'
        if op['op'] == 'schema':
            current = variants[op['v']]
            if schema.is_dir():
                schema.rmdir()
            elif schema.exists():
                schema.unlink()
            if current['data'] == 'dir':
                schema.mkdir()
            elif current['data'] is not None:
                schema.write_bytes(current['data'])
        elif op['op'] == 'own':
            (root / d).mkdir(parents=True, exist_ok=True)
            remove(root / d / op['name'])
            (root / d / op['name']).write_bytes(b'own')
        elif op['op'] == 'block':
            (root / d).mkdir(parents=True, exist_ok=True)
            remove(root / d / op['name'])
            (root / d / op['name']).mkdir()
        elif op['op'] in ('drop', 'clean'):
            for n in ([op['name']] if op['op'] == 'drop' else OWN + ALL):
                remove(root / d / n)
            if op['op'] == 'clean' and d not in ('.', 'real') and (root / d).exists():
                (root / d).rmdir()
        else:
            cwd = rng.choice([root, root / 'elsewhere'])
            shown = 'link' if op.get('dir') == 'link' else d

            def path(rel):
                p = str(root / rel) if rel != '.' else str(root)
                if rng.random() < 0.4:
                    return p
                p = rel if cwd == root and rng.random() < 0.5 else os.path.relpath(p, str(cwd))
                return './' + p if p.startswith('-') else p
            s, o = path(name), path(shown)
            if rng.random() < 0.2:
                o += '/'
            if op['op'] == 'usage':
                args = [a.format(s=s, o=o) for a in rng.choice(USAGES)]
                marks = ['usage']
            else:
                args = rng.choice([[op['lang'], '--schema', s, '--outdir', o], [op['lang'], '--outdir', o, '--schema', s],
                                   [op['lang'], '--schema=' + s, '--outdir=' + o]])
                marks = [''] if (current['there'] and current['valid']) else [name.replace('sch\u00e9', ''), "can't decode byte"]
                if not DIRS[op['dir']][1]:
                    marks += ['plainfile', 'dangling']
            cmd, env = command(rng, root, args)
            env['HOME'] = str(root / 'home')
            if op.get('limit'):
                cmd = [common.PY, '-c', LIMIT, str(op['limit'])] + cmd
            before = sha(schema.read_bytes()) if schema.is_file() else schema.is_dir()
            proc = common.sh(cmd, cwd=cwd, environ=env)
            st.update(exit=proc.returncode, dir=(root / d).is_dir(), described=bool(proc.stderr.strip()) and any(m in proc.stderr for m in marks))
            st['how'] = {'args': [a.replace(str(root), 'ROOT') for a in args], 'env': {k: env[k] for k in ('LC_ALL', 'PYTHONHASHSEED')},
                         'stderr': proc.stderr[-700:]}
            if before != (sha(schema.read_bytes()) if schema.is_file() else schema.is_dir()):
                st['touched'] = True
        st['files'] = snapshot(root, name)
        if st.pop('touched', False):
            st['files']['schema.json'] = 'changed'
        res['steps'].append(st)
    shutil.rmtree(str(root))
    return res


def cli_file(path, variants):
    common.dump(path, {
        'variants': {n: {'there': v['there'], 'valid': v['valid'], 'langs': v['langs'], 'files': v.get('files', {})} for n, v in variants.items()},
        'sizes': dict({'own': 3}, **{c: n for v in variants.values() for c, n in v.get('sizes', {}).items()}),
        'dirs': {n: {'at': os.path.normpath(at), 'usable': ok} for n, (at, ok) in DIRS.items()}, 'own': OWN})
    return tlc.tla_str(str(path))


def model_check(ctx):
    """All short histories of a small universe."""
    path = common.scratch() / 'cli-small.json'
    files = {v: {lang: {f: '{}.{}'.format(v, f) for f in FILES[lang]} for lang in LANGS} for v in 'ab'}
    common.dump(path, {
        'sizes': dict({c: 7 for v in files.values() for fs in v.values() for c in fs.values()}, **{'a.parse.py': 9, 'b.tojsonable.py': 9, 'a.jsoncpp.h': 9}),
        'variants': {'a': {'there': True, 'valid': True, 'langs': ['py', 'go', 'cpp'], 'files': files['a']},
                     'b': {'there': True, 'valid': True, 'langs': ['py'], 'files': files['b']},
                     'x': {'there': True, 'valid': False, 'langs': ['py', 'go', 'cpp'], 'files': {}}},
        'dirs': {'d': {'at': 'd', 'usable': True}, 'e': {'at': 'd', 'usable': True}, 'f': {'at': 'f', 'usable': False}}, 'own': ['n']})
    code, out = tlc.run('MapryCli', {'CliFile': tlc.tla_str(str(path)), 'Depth': '5' if common.THOROUGH else '4', 'Sim': 'FALSE'}, spec='CliSpec',
                        invariants=['Whole', 'Known'], properties=['Confined'], constraint='Shallow', tag='c15-design')
    if code != 0:
        raise tlc.TlcError(out[-3000:])
    ctx.tlc(out)
    ctx.count('states_of_the_design', tlc.stats(out)[1])


def run(ctx):
    rng = common.rng('c15')
    model_check(ctx)
    pool = Pool(rng)
    groups = 12 if common.THOROUGH else 6
    per, depth = (24, 20) if common.THOROUGH else (8, 13)
    variants = {}
    for g in range(groups):
        kinds = KINDS if g % 2 == 0 else ['full', 'full', 'some', 'clash', 'unicode', 'broken', 'invalid']
        for i, kind in enumerate(kinds):
            variants['{}{}.{}'.format(kind, i, g)] = pool.variant(kind)
    reference(variants)

    def simulate(g):
        mine = {n: v for n, v in variants.items() if n.endswith('.{}'.format(g))}
        f = cli_file(common.scratch() / 'cli-{}.json'.format(g), mine)
        code, out = tlc.run('MapryCli', {'CliFile': f, 'Depth': str(depth), 'Sim': 'TRUE'}, spec='CliSpec', invariants=['Whole', 'Known'],
                            workers=1, tag='c15-{}'.format(g), heap='1g',
                            extra=['-simulate', 'num={}'.format(per), '-depth', str(depth + 3), '-seed', str(common.SEED * 1000 + g)])
        if code != 0:
            raise tlc.TlcError(out[-4000:])
        m = re.search(r'(\d+) states checked', out)
        return [json.loads(t) for t in tlc.printed(out, 'HIST')], int(m.group(1)) if m else 0
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        sims = list(ex.map(simulate, range(groups)))
    hists = [h for hs, _ in sims for h in hs]
    ctx.transitions += sum(n for _, n in sims)
    jobs = [(i, h, variants, '{}:{}'.format(common.SEED, i)) for i, h in enumerate(hists)]
    with concurrent.futures.ThreadPoolExecutor(common.NCPU) as ex:
        items = list(ex.map(replay, jobs))
    ctx.traces += len(items)
    runs = [s for i in items for s in i['steps'] if 'exit' in s]
    ctx.count('histories', len(items))
    ctx.count('runs_of_the_tool', len(runs))
    ctx.count('runs_with_exit_0', sum(1 for s in runs if s['exit'] == 0))
    for i in items[:3]:
        ctx.sample({'history': [dict(s['op'], exit=s.get('exit')) for s in i['steps']]})
    for s in runs:
        ctx.keys.add((s['op'].get('lang'), s['op'].get('dir'), s['exit'], s['how']['env']['LC_ALL']))
    # what is recorded is what TLC reads, without how the tool was called
    lean = [dict(i, steps=[{k: v for k, v in s.items() if k != 'how'} for s in i['steps']]) for i in items]
    f = cli_file(common.scratch() / 'cli-all.json', variants)
    for n, why in tlc.judge('MapryCliRun', lean, 'c15', constants={'CliFile': f}, ctx=ctx):
        ctx.violation(why, {'history': items[n - 1]['steps'], 'variants': {
            s['op']['v']: repr(variants[s['op']['v']]['data'])[:3000] for s in items[n - 1]['steps'] if s['op']['op'] == 'schema'}},
            group=re.sub(r'step \d+: |\S+\.(py|go|h|cpp)\b|\b[0-9a-f]{12}\b', '', why))
