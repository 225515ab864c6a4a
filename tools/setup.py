#!/usr/bin/env python3
"""Nothing to build: checks that the tools are there and the modules parse."""
import glob
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def main():
    bad = []
    mods = sorted(os.path.basename(p) for p in glob.glob(os.path.join(SPEC, '*.tla')))
    p = subprocess.run(['java', '-cp', CP, 'tla2sany.SANY'] + mods, cwd=SPEC,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode()
    if p.returncode or 'Fatal errors' in out or '*** Errors' in out or 'Could not parse' in out:
        print(out[-3000:])
        return 1
    r = subprocess.run(['/opt/venv/bin/python', '-c', 'import kajiki'], env=dict(
        os.environ, PYTHONPATH='/repo', PYTHONDONTWRITEBYTECODE='1'))
    return r.returncode


sys.exit(main())
