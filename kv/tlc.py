"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JOBS = max(2, min(8, os.cpu_count() or 4))


class MachineryError(Exception):
    pass


def dump(path, rows):
    with open(path, 'w', encoding='ascii') as f:
        for r in rows:
            f.write(json.dumps(r) + '\n')


def load(path):
    with open(path, encoding='utf-8') as f:
        return [json.loads(l) for l in f if l.strip()]


def stats(text):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
    d = re.findall(r'The depth of the complete state graph search is (\d+)', text)
    if not m:
        return {'generated': 0, 'distinct': 0, 'depth': 0}
    return {'generated': int(m[-1][0]), 'distinct': int(m[-1][1]), 'depth': int(d[-1]) if d else 0}


def run(module, cfg=None, env=None, workers=1, args=(), heap='2g', timeout=880, jvm=()):
    """Runs TLC on a module; returns (exit code, output, stats)."""
    meta = tempfile.mkdtemp(prefix='kvtlc')
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xss64m',
           '-Xmx' + heap, '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8',
           '-Djava.io.tmpdir=' + meta] + list(jvm) + [
           '-cp', CP, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers),
           '-config', (cfg or module) + '.cfg'] + list(args) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        out = p.stdout.decode('utf-8', 'replace')
        return p.returncode, out, stats(out)
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def check_cases(module, cases, chunk=None, jobs=JOBS, heap='2g', cfg=None):
    """Validates cases; returns their verdicts (in order) and the statistics."""
    if not cases:
        return [], {'generated': 0, 'distinct': 0, 'depth': 0}
    chunk = chunk or max(1, min(400, -(-len(cases) // jobs)))
    parts = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
    tmp = tempfile.mkdtemp(prefix='kvcases')

    def one(k):
        inp, outp = os.path.join(tmp, '%d.in' % k), os.path.join(tmp, '%d.out' % k)
        dump(inp, parts[k])
        rc, text, st = run(module, cfg, {'CASES': inp, 'OUT': outp}, heap=heap)
        if rc != 0 or not os.path.exists(outp):
            raise MachineryError('TLC failed on %s (chunk %d):\n%s' % (module, k, text[max(0, text.find('Error:')):][:1500] + '...' + text[-1500:]))
        vs = dict((v['j'], v) for v in load(outp))
        os.remove(inp)
        missing = [j for j in range(1, len(parts[k]) + 1) if j not in vs]
        if missing:
            raise MachineryError('no verdict for case %r' % missing[:3])
        return [vs[j] for j in range(1, len(parts[k]) + 1)], st

    try:
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(one, range(len(parts))))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    tot = {'generated': 0, 'distinct': 0, 'depth': 0}
    vs = []
    for v, st in res:
        vs += v
        tot['generated'] += st['generated']
        tot['distinct'] += st['distinct']
        tot['depth'] = max(tot['depth'], st['depth'])
    return vs, tot


def generate(module, tier='quick', parts=JOBS, heap='3g', env=None, cfg='Gen'):
    """Runs an exhaustive family; returns its jobs with their meaning."""
    tmp = tempfile.mkdtemp(prefix='kvgen')

    def one(k):
        outp = os.path.join(tmp, '%d.out' % k)
        e = {'PART': str(k), 'PARTS': str(parts), 'OUT': outp, 'VERIF_TIER': tier}
        e.update(env or {})
        rc, text, st = run(module, cfg, e, heap=heap)
        if rc != 0 or not os.path.exists(outp):
            raise MachineryError('TLC failed on %s (part %d):\n%s' % (
                module, k, text[max(0, text.find('Error:')):][:2500] + '...' + text[-800:]))
        return load(outp), st

    try:
        with ThreadPoolExecutor(parts) as ex:
            res = list(ex.map(one, range(parts)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rows = sorted((r for part, _ in res for r in part), key=lambda r: r['c'])
    return rows, total(st for _, st in res)


def total(sts):
    tot = {'generated': 0, 'distinct': 0, 'depth': 0}
    for st in sts:
        tot['generated'] += st['generated']
        tot['distinct'] += st['distinct']
        tot['depth'] = max(tot['depth'], st['depth'])
    return tot


def single(module, tier='quick', env=None, workers=1, heap='3g', timeout=880):
    """Runs a generator that needs no partition; returns its rows."""
    tmp = tempfile.mkdtemp(prefix='kvgen')
    outp = os.path.join(tmp, 'out')
    try:
        e = {'OUT': outp, 'VERIF_TIER': tier}
        e.update(env or {})
        rc, text, st = run(module, None, e, workers=workers, heap=heap, timeout=timeout)
        if rc != 0 or not os.path.exists(outp):
            raise MachineryError('TLC failed on %s:\n%s' % (
                module, text[max(0, text.find('Error:')):][:2500] + '...' + text[-800:]))
        return load(outp), st
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
