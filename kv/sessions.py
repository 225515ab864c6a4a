"""C12: interleaved renderings."""
import copy

from . import case as kcase
from . import families, lang, real, tlc


def prepare(row, rng=None):
    j = lang.unflatten(row['job'])
    c = kcase.prepare(j, rng)
    return {'tpls': c['tpls'], 'srcs': c['srcs']}, {'ctx': c['ctx'], 'tr': c['tr']}


def want(row):
    return {'status': row['status'], 'out': row['out'] if row['status'] == 'ok' else row['pre']}


def schedules(chk):
    rows, st = tlc.single('SessionGen', chk.tier)
    return [r['h'] for r in rows], st


def variant(rng, j):
    """The same templates with another catalogue and other values of the same types."""
    j = copy.deepcopy(j)
    j['tr'] = rng.choice([t for t in ('id', 'brk', 'mk', 'void') if t != j.get('tr', 'id')])
    for c in j['ctx']:
        v = c['v']
        if v['t'] == 'str':
            v['s'] = rng.choice(['', 'other', '<&>', v['s'] + 'x', ' '])
        elif v['t'] == 'int':
            v['i'] = rng.choice([v['i'], 0, 1, 7])
        elif v['t'] == 'bool':
            v['b'] = rng.random() < .5
        elif v['t'] == 'list' and rng.random() < .3:
            v['l'] = v['l'][:1]
    return j


def chance(r):
    own = r.random() < .3
    return {'seed': r.randrange(10 ** 6), 'own': own, 'len': 20 if own else r.choice([1, 1, 4])}


def run(chk, randoms=()):
    rows, st = tlc.generate('GenIsolate', chk.tier)
    by = dict((tuple(r['c']), r) for r in rows)
    ntpl = max(c[0] for c in by)
    scheds, st2 = schedules(chk)
    chk.count(tlc.total([st, st2]), 0, 'schedules of two sessions', True)
    cases, wants = [], []
    pairs = [(1, 2), (3, 1), (1, 1), (4, 1), (2, 3), (1, 4)]
    for t in range(1, ntpl + 1):
        for k, h in enumerate(scheds):
            # every schedule with every template, the contexts in turn
            for p in ([pairs[(k + t) % len(pairs)]] if not chk.deep else pairs):
                sets, ctxs = [], []
                for c in p:
                    a, b = prepare(by[(t, c)])
                    sets.append(a)
                    ctxs.append(b)
                same = p[0] == p[1]
                cases.append({'sets': [sets[0]], 'ctxs': [ctxs[0]] if same else ctxs,
                              'sess': [{'set': 0, 'ctx': 0}, {'set': 0, 'ctx': 0 if same else 1}],
                              'sched': h + [{'a': 'drain', 's': 1}, {'a': 'drain', 's': 2}]})
                wants.append([want(by[(t, c)]) for c in p])
    n = len(cases)
    # long histories: many sessions of several templates
    for _ in range(chk.n(250, 4000)):
        r = chk.rng
        keys = [(t, c) for t in r.sample(range(1, ntpl + 1), 3) for c in r.sample([1, 2, 3, 4], 2)]
        sets, ctxs, sess = [], [], []
        for i, key in enumerate(keys):
            a, b = prepare(by[key], r)
            if i % 2 == 0:
                sets.append(a)
            ctxs.append(b)
        w = []
        for i in range(8):
            k = r.randrange(len(keys))
            sess.append({'set': k // 2, 'ctx': k})
            w.append(want(by[keys[k]]))
        acts = ['pull'] * 6 + ['drain', 'drop', 'again', 'new']
        sched = [{'a': r.choice(acts), 's': r.randint(1, 8)} for _ in range(80)]
        sched += [{'a': 'drain', 's': s} for s in range(1, 9)]
        cases.append({'sets': sets, 'ctxs': ctxs, 'sess': sess, 'sched': sched})
        wants.append(w)
    # arbitrary templates, whose result the machine has confirmed
    for label, make in randoms:
        jobs = [j for j in (make(chk.rng) for _ in range(chk.n(62, 1550))) if families.cost(j) < 8000]
        jobs = [j for j in jobs for j in (j, variant(chk.rng, j))]
        res = chk.validate(label, jobs)
        for (j, c, o, v), (j2, c2, o2, v2) in zip(res[::2], res[1::2]):
            if v['why'] or v2['why'] or o['k'] != 'ok' or o2['k'] != 'ok':
                continue
            order = [c['main'] - 1] + [i for i in range(len(c['tpls'])) if i != c['main'] - 1]
            cases.append({'sets': [{'tpls': [c['tpls'][i] for i in order], 'srcs': [c['srcs'][i] for i in order]}],
                          'ctxs': [{'ctx': x['ctx'], 'tr': x['tr']} for x in (c, c2)],
                          'sess': [{'set': 0, 'ctx': i} for i in (0, 1, 0)],
                          'sched': [{'a': chk.rng.choice(['pull'] * 8 + ['drain', 'drop', 'again', 'new']),
                                     's': chk.rng.randint(1, 3)} for _ in range(60)]
                          + [{'a': a, 's': s} for s in (1, 2, 3) for a in ('drain', 'again', 'drain')]})
            wants.append([{'status': 'ok', 'out': x['out']} for x in (o, o2, o)])
            if chk.rng.random() < .5:
                cases.append(dict(cases[-1], sched=[], threads=chance(chk.rng)))
                wants.append(wants[-1])
    # the same in threads
    for _ in range(chk.n(120, 3000)):
        t = chk.rng.randint(1, ntpl)
        ks = [chk.rng.randint(1, 4) for _ in range(3)]
        prep = [prepare(by[(t, k)]) for k in ks]
        cases.append({'sets': [prep[0][0]], 'ctxs': [b for _, b in prep], 'sched': [],
                      'sess': [{'set': 0, 'ctx': i} for i in range(3)], 'threads': chance(chk.rng)})
        wants.append([want(by[(t, k)]) for k in ks])
    obs = real.run('session_driver.py', cases)
    todo, idx = [], []
    for i, (c, w, o) in enumerate(zip(cases, wants, obs)):
        if o['k'] != 'ok':
            chk.violation('the sessions could not be run: %s %s' % (o.get('type'), o.get('msg')),
                          {'case': c, 'observed': o})
        else:
            todo.append({'want': w, 'pure': o['pure'],
                         'events': [{'s': e['s'], 'r': e['r'], 't': e['t']} for e in o['events']]})
            idx.append(i)
    vs, st = tlc.check_cases('SessionTrace', todo)
    for i, t, v in zip(idx, todo, vs):
        if v['why']:
            chk.violation(v['why'], {'case': cases[i], 'expected': wants[i], 'observed': obs[i], 'event': v['at']})
    chk.count(st, len(cases), 'interleaved sessions (%d exhaustive, %d long)' % (n, len(cases) - n), False,
              [{'schedule': cases[0]['sched'], 'events': obs[0].get('events')}])
