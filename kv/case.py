"""From jobs to verdicts: unparse, run the real code, validate with TLC."""
import json

from . import lang, real, tlc


def prepare(job, rng, **kw):
    """The case for the driver: sources plus options."""
    srcs = lang.unparse(job, rng, **kw)
    c = {'tpls': [dict((k, t[k]) for k in ('name', 'kind', 'mode', 'frag', 'strip', 'cdata', 'esc', 'auto'))
                  for t in job['tpls']],
         'srcs': srcs, 'ctx': job['ctx'], 'main': job['main'], 'tr': job['tr'],
         'haslog': job.get('haslog', False), 'via': job.get('via', 'mock')}
    for k in ('loader', 'load', 'encs'):
        if k in job:
            c[k] = job[k]
    if rng is not None and rng.random() < .3:
        c['gt'] = 'module'
    return c


def row(job, obs, cmploc=False, cmpout=True):
    j = lang.flatten(job)
    o = {'k': obs['k'], 'out': obs.get('out', ''), 'log': obs.get('log', []), 'bases': obs.get('bases', []),
         'hasloc': obs.get('hasloc', False), 'file': obs.get('file', ''), 'line': obs.get('line', 0)}
    r = dict((k, j[k]) for k in ('tpls', 'nodes', 'ctx', 'tr', 'main', 'order'))
    r.update(obs=o, haslog=job.get('haslog', False), cmploc=cmploc, cmpout=cmpout)
    return r


def validate(jobs, rng, cmploc=False, module='RenderTrace', **kw):
    """Returns [(job, case, obs, verdict)], statistics."""
    cases = [prepare(j, rng, **kw) for j in jobs]
    obs = real.run('driver.py', cases)
    rows = [row(j, o, cmploc) for j, o in zip(jobs, obs)]
    vs, st = tlc.check_cases(module, rows)
    return list(zip(jobs, cases, obs, vs)), st
