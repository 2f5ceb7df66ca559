"""Run TLC on a module of spec/ with constants given by the harness."""
import json
import os
import re
import shutil
import subprocess
import threading

import common

TLA_JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcError(Exception):
    pass


def tla_set(items):
    return '{' + ', '.join(tla_str(x) for x in items) + '}'


def tla_str(x):
    return '"' + x.replace('\\', '\\\\').replace('"', '\\"') + '"'


def run(module, constants, spec='Spec', invariants=(), properties=(), workers=8,
        extra=(), heap='4g', timeout=840, deadlock=False, tag='run',
        constraint=None, view=None, postcondition=None, overrides=None):
    """Run TLC; return (return code, output)."""
    sc = common.scratch() / 'tlc-{}-{}'.format(module, tag)
    if sc.exists():
        shutil.rmtree(str(sc))
    sc.mkdir(parents=True)
    for f in common.SPEC.glob('*.tla'):
        shutil.copy(str(f), str(sc))
    # constants which are not plain model values are given by definitions
    mc = ['---- MODULE MC ----', 'EXTENDS {}'.format(module)]
    cfg = []
    if spec:
        cfg.append('SPECIFICATION {}'.format(spec))
    for name, val in (constants or {}).items():
        mc.append('mc_{} == {}'.format(name, val))
        cfg.append('CONSTANT {} <- mc_{}'.format(name, name))
    for name, val in (overrides or {}).items():
        cfg.append('CONSTANT {} <- {}'.format(name, val))
    mc.append('====')
    for inv in invariants:
        cfg.append('INVARIANT {}'.format(inv))
    for prop in properties:
        cfg.append('PROPERTY {}'.format(prop))
    if constraint:
        cfg.append('CONSTRAINT {}'.format(constraint))
    if view:
        cfg.append('VIEW {}'.format(view))
    if postcondition:
        cfg.append('POSTCONDITION {}'.format(postcondition))
    if not deadlock:
        cfg.append('CHECK_DEADLOCK FALSE')
    (sc / 'MC.tla').write_text('\n'.join(mc) + '\n')
    (sc / 'MC.cfg').write_text('\n'.join(cfg) + '\n')
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
           '-Dfile.encoding=UTF-8', '-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet',
           '-cp', TLA_JARS, 'tlc2.TLC', '-nowarning', '-config', 'MC.cfg', '-workers', str(workers),
           '-metadir', str(sc / 'meta')] + list(extra) + ['MC.tla']
    environ = dict(os.environ)
    environ['LC_ALL'] = 'C.UTF-8'
    proc = subprocess.run(cmd, cwd=str(sc), env=environ, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, timeout=timeout,
                          encoding='utf-8', errors='replace')
    return proc.returncode, proc.stdout


ZONES = ['Europe/Zurich', 'UTC', 'America/New_York', 'Asia/Kolkata']
OPEN_ZONES = ['', 'Local', 'utc', 'europe/zurich']


def printed(out, tag):
    """Return the texts printed with PrintT("tag ...")."""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag + ' ') and line.endswith('"'):
            # TLC prints strings as TLA+ strings
            text = line[1:-1].replace('\\"', '"').replace('\\\\', '\\')
            res.append(text[len(tag) + 1:])
        elif line.startswith(tag + ' '):
            res.append(line[len(tag) + 1:])
    return res


def stats(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def validate(items, schemas, tag='trace', module='MapryTrace', extra_constants=None,
             keep=None, ctx=None):
    """Validate recorded items; return the list of broken clauses.

    Each clause is [item id, language, capacity, clause, detail].
    """
    if not items:
        return []
    nchunks = min(16, max(1, len(items)))
    path = common.scratch() / 'obs-{}.json'.format(tag)
    common.dump(path, {'schemas': schemas, 'items': items})
    size = -(-len(items) // nchunks)
    nchunks = -(-len(items) // size)
    consts = {'File': tla_str(str(path)), 'NChunks': str(nchunks),
              'ValidZones': tla_set(ZONES), 'OpenZones': tla_set(OPEN_ZONES)}
    consts.update(extra_constants or {})
    code, out = run(module, consts, tag=tag)
    if ctx is not None:
        ctx.tlc(out)
    done = printed(out, 'DONE')
    if code != 0 or len(done) != nchunks:
        raise TlcError('TLC failed on {} (exit {}, {} of {} chunks):\n{}'.format(
            path, code, len(done), nchunks, out[-6000:]))
    if not common.os.environ.get('VERIF_KEEP'):
        path.unlink()
    fails = []
    for text in printed(out, 'FAIL'):
        fails.extend(json.loads(text))
    return fails


def judge(module, items, tag, constants=None, ctx=None, extra=None, heap='4g'):
    """Let a module built on MapryJudge visit the items; return the list of
    [item number, what is wrong]."""
    if not items:
        return []
    nchunks = min(16, len(items))
    size = -(-len(items) // nchunks)
    nchunks = -(-len(items) // size)
    path = common.scratch() / 'items-{}.json'.format(tag)
    common.dump(path, dict({'items': items}, **(extra or {})))
    consts = {'File': tla_str(str(path)), 'NChunks': str(nchunks)}
    consts.update(constants or {})
    code, out = run(module, consts, tag=tag, heap=heap, overrides={'Bad': 'Bad' + module[5:]})
    if ctx is not None:
        ctx.tlc(out)
    done = printed(out, 'DONE')
    if code != 0 or len(done) != nchunks:
        raise TlcError('TLC failed on {} (exit {}, {} of {} chunks):\n{}'.format(path, code, len(done), nchunks, out[-9000:]))
    fails = []
    for text in printed(out, 'FAIL'):
        fails.extend(json.loads(text))
    return sorted(fails)
