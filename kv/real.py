"""Running the real code (the project's interpreter, /repo's working tree)."""
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from .tlc import JOBS, MachineryError

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('KV_REPO', '/repo')


def env(tmp):
    e = dict(os.environ)
    for k in ('PYTHONHOME', 'PYTHONPATH'):
        e.pop(k, None)
    e.update(LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1',
             PYTHONIOENCODING='utf-8', PYTHONDONTWRITEBYTECODE='1',
             PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'), TMPDIR=tmp, PYTHONPATH=REPO)
    return e


def run_script(script, rows, timeout=600):
    """Feeds rows to a driver script; one result per row, whatever happens."""
    tmp = tempfile.mkdtemp(prefix='kvreal')
    out = []
    down = 0
    todo = list(rows)
    try:
        while todo:
            data = ''.join(json.dumps(r) + '\n' for r in todo).encode('utf-8')
            try:
                p = subprocess.run([PY, os.path.join(HERE, script)], input=data, env=env(tmp), cwd=tmp,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
                got, err, why = p.stdout, p.stderr, 'exit %d' % p.returncode
            except subprocess.TimeoutExpired as e:
                got, err, why = e.stdout or b'', e.stderr or b'', 'timeout'
            lines = got.decode('utf-8', 'replace').split('\n')[:-1]
            res = []
            for l in lines:
                try:
                    res.append(json.loads(l))
                except ValueError:
                    break
            out += res[:len(todo)]
            todo = todo[len(res):]
            if todo:
                # the case at the head took the interpreter down
                out.append({'k': 'crash', 'type': why, 'msg': err.decode('utf-8', 'replace')[-600:]})
                todo = todo[1:]
                down += 1
                if down > 2:
                    out += [{'k': 'skip'}] * len(todo)
                    todo = []
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def run(script, rows, jobs=JOBS, spread=False):
    if not rows:
        return []
    if spread:
        # interleaved, for rows that take long
        with ThreadPoolExecutor(jobs) as ex:
            parts = [list(range(k, len(rows), jobs * 4)) for k in range(min(jobs * 4, len(rows)))]
            res = list(ex.map(lambda p: run_script(script, [rows[i] for i in p]), parts))
        out = [None] * len(rows)
        for p, r in zip(parts, res):
            for i, o in zip(p, r):
                out[i] = o
        return out
    n = -(-len(rows) // jobs)
    parts = [rows[i:i + n] for i in range(0, len(rows), n)]
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda p: run_script(script, p), parts))
    return [o for part in res for o in part]
