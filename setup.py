#!/usr/bin/env python3
"""Check that the tools are there and that the specification parses."""
import pathlib
import shutil
import subprocess
import sys
import tempfile

HERE = pathlib.Path(__file__).resolve().parent
for tool in ('java', 'tlc', 'tla-sany', 'g++', 'go', 'python3'):
    if shutil.which(tool) is None:
        sys.exit('missing tool: ' + tool)
tmp = tempfile.mkdtemp(prefix='mapry-setup-')
try:
    for f in sorted((HERE / 'spec').glob('*.tla')):
        shutil.copy(str(f), tmp)
    for f in sorted((HERE / 'spec').glob('*.tla')):
        p = subprocess.run(['tla-sany', f.name], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode or b'*** Errors' in p.stdout or b'Fatal' in p.stdout:
            sys.exit('{}\n{}'.format(f.name, p.stdout.decode()))
finally:
    shutil.rmtree(tmp)
