"""A check: runs its components, collects violations and evidence."""
import json
import os
import random
import time

from . import case as kcase
from . import families, lang, real, tlc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOISE = ('file', 'l1', 'l2')


def show(job, case):
    """A readable form of a case."""
    d = {'templates': [{'name': t['name'], 'source': s,
                        'options': dict((k, v) for k, v in t.items()
                                        if k not in ('name',) and v not in ('', False, [], None))}
                       for t, s in zip(case['tpls'], case['srcs'])],
         'context': case['ctx'], 'main': case['tpls'][case['main'] - 1]['name']}
    if case.get('tr', 'id') != 'id':
        d['gettext'] = 'brackets'
    if case.get('via') == 'file':
        d['loader'] = 'FileLoader'
    return d


class Check(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random('%s/%s/%d' % (pid, tier, seed))
        self.deep = tier == 'thorough'
        self.violations = []
        self.known = []
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.parts = []
        self.t0 = time.time()
        self.findings = load_findings(pid)

    # -- bookkeeping -------------------------------------------------------
    def n(self, quick, thorough):
        return thorough if self.deep else quick

    def count(self, st, traces=0, label='', exhaustive=False, samples=()):
        self.states += st['distinct']
        self.transitions += st['generated']
        self.traces += traces
        self.parts.append({'component': label, 'states': st['distinct'], 'cases': traces,
                           'depth': st.get('depth', 0), 'exhaustive': exhaustive,
                           'wall_s': round(time.time() - self.t0, 1)})
        for s in samples:
            if len(self.samples) < 6:
                self.samples.append(s)

    def violation(self, why, detail):
        if isinstance(detail.get('observed'), dict) and detail['observed'].get('k') == 'skip':
            return      # follows cases that did not end
        for f in self.findings:
            if detail.get('finding_key') and detail['finding_key'] == f.get('key'):
                self.known.append(f)
                return
        self.violations.append((why, detail))

    def finish(self):
        for f in self.findings:
            if f in self.known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, f['what']))
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces,
                           'components': self.parts, 'samples': self.samples},
              'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        if not self.violations:
            print('%s held: %d cases on the real code, %d states of the specification, %.1f s'
                  % (self.pid, self.traces, self.states, time.time() - self.t0))
            return 0
        rd = os.path.join(ROOT, 'replays')
        os.makedirs(rd, exist_ok=True)
        self.violations.sort(key=lambda v: len(json.dumps(v[1])))
        for i, (why, detail) in enumerate(self.violations[:5]):
            path = os.path.join(rd, '%s-%d.json' % (self.pid, i + 1))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'why': why, 'case': detail}, f, indent=1, sort_keys=True)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  %s' % why)
        if len(self.violations) > 5:
            print('  ... and %d more' % (len(self.violations) - 5))
        return 1

    # -- components --------------------------------------------------------
    def family(self, module, spellings=2, log=False, loc=False, via=None, tr=None, env=None, only=None,
               prep=None, **kw):
        """Spec to code: every job of an exhaustive family, replayed."""
        rows, st = tlc.generate(module, self.tier, env=env)
        if only:
            rows = [r for r in rows if only(r)]
        self.replay(module, rows, st, spellings, log, loc, via, tr, prep, **kw)

    def replay(self, label, rows, st, spellings=2, log=False, loc=False, via=None, tr=None, prep=None, **kw):
        todo = []
        for r in rows:
            for k in range(spellings):
                j = lang.unflatten(r['job'])
                if log:
                    j['haslog'] = True
                if via:
                    j['via'] = via
                c = kcase.prepare(j, self.rng if k else None, **kw)
                if prep:
                    prep(c, r, k)
                todo.append((r, j, c))
        obs = real.run('driver.py', [c for _, _, c in todo])
        for (r, j, c), o in zip(todo, obs):
            why = compare(r, j, o, log, loc)
            if why:
                d = show(j, c)
                d.update(expected=dict((k, r[k]) for k in ('status', 'out', 'log')), observed=o,
                         choice=r.get('c'), family=label)
                self.violation(why, d)
        self.count(st, len(todo), label, True,
                   [dict(show(todo[i][1], todo[i][2]), expected=todo[i][0]['out'])
                    for i in sorted(self.rng.sample(range(len(todo)), min(2, len(todo))))])

    def random(self, label, make, n, loc=False, log=False, chunk=None, **kw):
        """Code to spec: random jobs run on the code, validated by TLC."""
        jobs = []
        for _ in range(n):
            j = make(self.rng)
            while families.cost(j) > 8000:
                j = make(self.rng)
            if log:
                j['haslog'] = True
            jobs.append(j)
        self.validate(label, jobs, loc, **kw)

    def validate(self, label, jobs, loc=False, keys=None, plain=False, **kw):
        res, st = kcase.validate(jobs, None if plain else self.rng, cmploc=loc, **kw)
        for i, (j, c, o, v) in enumerate(res):
            if v['why']:
                d = show(j, c)
                d.update(expected=dict((k, v[k]) for k in v if k not in ('j', 'why')), observed=o,
                         family=label)
                if keys:
                    d['finding_key'] = keys[i]
                self.violation(v['why'], d)
        ok = [r for r in res if not r[3]['why']]
        self.count(st, len(res), label, False,
                   [dict(show(ok[0][0], ok[0][1]), observed=ok[0][2].get('out', ok[0][2].get('type')))] if ok else [])
        return res

    def listed(self, label, prefix, jobs, **kw):
        """Jobs that may be known findings: {key: jobs}."""
        ks = [(prefix + k, j) for k, js in sorted(jobs.items()) for j in js]
        self.validate(label, [j for _, j in ks], keys=[k for k, _ in ks], plain=True, **kw)


ASSUMPTIONS = [
    'The specification is checked within the bounds of its families; random jobs sample beyond them.',
    'TLC, the Json community module and the unparser (kv/lang.py) are trusted.',
    'Templates use the part of the language the specification covers (see DESIGN.md).',
]


def compare(r, j, o, log=False, loc=False):
    """Does the observation agree with the meaning the machine gave?"""
    if r['status'] == 'ok':
        if o['k'] != 'ok':
            return 'the template must render, but failed: %s %s' % (o.get('type'), o.get('msg', '')[:200])
        if o['out'] != r['out']:
            return 'different output'
        if log and set(o['log']) != set(r['log']):
            return 'different messages for gettext'
        return ''
    if o['k'] == 'ok':
        return 'an error must be raised, but it rendered'
    if o['k'] != 'err':
        return 'no result: %s' % o.get('msg')
    if r['ex'] and r['ex'] not in o['bases']:
        return '%s must be raised, not %s' % (r['ex'], o['type'])
    if loc:
        n = find(j, r['eid'])
        if not o['hasloc']:
            return 'the traceback shows no line of a template'
        if o['file'] != n['file']:
            return 'the error is reported in another template'
        if not n['l1'] <= o['line'] <= n['l2']:
            return 'the error is reported at another line (%d, not %d-%d)' % (o['line'], n['l1'], n['l2'])
    return ''


def find(j, i):
    def walk(ns):
        for n in ns:
            if n.get('_id') == i:
                return n
            x = walk(n.get('kids', ()))
            if x:
                return x
    for t in j['tpls']:
        x = walk(t['root'])
        if x:
            return x


def load_findings(pid):
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                if l.strip().startswith('{'):
                    d = json.loads(l)
                    if d.get('property') == pid and d.get('status') == 'known':
                        out.append(d)
    return out
