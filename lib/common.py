"""Paths, environments and process helpers shared by all checks."""
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('MAPRY_REPO', '/repo'))
SPEC = VERIF / 'spec'
PY = '/opt/venv/bin/python'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
NCPU = min(8, os.cpu_count() or 1)

_SCRATCH = None


def scratch():
    """Return the scratch directory of this run (removed at exit)."""
    global _SCRATCH
    if _SCRATCH is None:
        import atexit
        _SCRATCH = pathlib.Path(tempfile.mkdtemp(prefix='mapryverif.'))
        if not os.environ.get('VERIF_KEEP'):
            atexit.register(shutil.rmtree, str(_SCRATCH), ignore_errors=True)
        else:
            print('scratch: {}'.format(_SCRATCH), file=sys.stderr)
    return _SCRATCH


def env(**extra):
    """Return the environment in which code under test runs."""
    sc = scratch()
    result = {
        'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONHASHSEED': '0', 'PYTHONPATH': str(REPO),
        'PYTHONWARNINGS': 'ignore',
        'GOPROXY': 'off', 'GOSUMDB': 'off', 'GOTOOLCHAIN': 'local',
        'GO111MODULE': 'off', 'GOFLAGS': '-trimpath',
        'GOCACHE': str(sc / 'gocache'), 'GOTELEMETRY': 'off',
        'HOME': str(sc), 'TMPDIR': str(sc),
        # do not let the language runtimes start more helpers than needed
    }
    # the go tool is in /usr/local/go/bin on some images
    for cand in ('/usr/local/go/bin', '/opt/veriftools/bin'):
        if os.path.isdir(cand):
            result['PATH'] += ':' + cand
    result.update(extra)
    return result


def rng(tag):
    """Return a random generator seeded by VERIF_SEED and the tag."""
    return random.Random('{}:{}'.format(SEED, tag))


def sh(cmd, cwd=None, timeout=600, environ=None, check=False, inp=None):
    """Run a command and return the completed process (text mode)."""
    proc = subprocess.run(
        cmd, cwd=str(cwd) if cwd else None, env=environ or env(),
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
        input=inp, encoding='utf-8', errors='surrogateescape')
    if check and proc.returncode != 0:
        raise RuntimeError('command failed: {}\n{}\n{}'.format(
            cmd, proc.stdout[-4000:], proc.stderr[-4000:]))
    return proc


def dump(path, obj):
    pathlib.Path(path).write_text(
        json.dumps(obj, ensure_ascii=False, separators=(',', ':')),
        encoding='utf-8')


_T0 = time.time()


def log(msg):
    print('[{:6.1f}s] {}'.format(time.time() - _T0, msg), file=sys.stderr, flush=True)
