"""C10: loaders over files that change."""
from . import real, tlc

UNITS = [10 ** 9, 10 ** 7, 3600 * 10 ** 9]


def consistent(events, obs):
    """The first event whose observation is not the expected one, or -1."""
    to, fro = {}, {}
    for i, (e, o) in enumerate(zip(events, obs)):
        w = e['res']
        if o['r'] != w['r'] or o['out'] != w['out']:
            return i
        if e['a'] == 'load' and w['r'] == 'ok':
            k = (e['l'], w['id'])
            if to.setdefault(k, o['id']) != o['id'] or fro.setdefault(o['id'], k) != k:
                return i
    return -1


def number(events):
    """Which load gave the template each rendering uses."""
    first = {}
    for i, e in enumerate(events):
        if e['a'] == 'load' and e['res']['r'] == 'ok':
            first.setdefault((e['l'], e['res']['id']), i)
        if e['a'] == 'render':
            e['of'] = first[(e['l'], e['d'])]
    return events


def exhaustive(chk, family, limit=None, pkg=False):
    rows, st = tlc.single('LoaderGen', chk.tier, env={'FAMILY': family})
    if limit and len(rows) > limit:
        rows = chk.rng.sample(rows, limit)
    cases = []
    for k, r in enumerate(rows):
        ev = number(r['h'] + r['p'])
        for e in ev:
            if chk.rng.random() < .3:
                e['alt'] = True
        cases.append({'dirs': 2 if family == 'search' or family == 'fixed' else 1, 'pkg': pkg, 'path': k % 3,
                      'unit': UNITS[k % len(UNITS)],
                      'reload': [False] if family == 'fixed' else
                      [True, False] if family == 'search' and chk.deep else [True], 'events': ev})
    obs = real.run('loader_driver.py', cases)
    for c, o in zip(cases, obs):
        if o['k'] != 'ok':
            chk.violation('no result: %s %s' % (o.get('type'), o.get('msg')), {'case': c, 'observed': o})
            continue
        i = consistent(c['events'], o['obs'])
        if i >= 0:
            chk.violation('after %d steps, %s gives %r, not %r' % (
                i, c['events'][i]['a'], o['obs'][i], c['events'][i]['res']), {'case': c, 'observed': o['obs'][:i + 1]})
    chk.count(st, len(cases), 'LoaderGen ' + family + (' (package)' if pkg else ''), limit is None,
              [{'events': [dict((k, v) for k, v in e.items() if k not in ('alt',)) for e in cases[-1]['events']]}])


def history(rng, pkg):
    names = ['a', 'b', 'c', 'd'][:rng.choice([2, 3, 4])]
    dirs = rng.choice([1, 2, 3])
    reload = rng.choice([[True], [True, False], [True, True], [False]])
    fs = {}
    v = [0]
    loads = []
    ev = []

    def put(d, n):
        later = names[names.index(n) + 1:]
        k = rng.choice(['leaf', 'leaf', 'bad', 'inc', 'ext', 'inc', 'ext'][:7 if later else 3])
        v[0] += 1
        f = {'k': k, 'v': 'v%d' % v[0], 't': rng.choice(later) if k in ('inc', 'ext') else '', 'm': rng.randint(1, 6)}
        fs[d, n] = f
        ev.append({'a': 'write', 'l': 0, 'd': d, 'n': n, 'f': f})
    for n in names:
        if rng.random() < .9:
            put(rng.randint(1, dirs), n)
    for _ in range(rng.randint(10, 40)):
        r = rng.random()
        if r < .25:
            put(rng.randint(1, dirs), rng.choice(names))
        elif r < .35 and fs:
            d, n = rng.choice(sorted(fs))
            del fs[d, n]
            ev.append({'a': 'remove', 'l': 0, 'd': d, 'n': n})
        elif r < .7 or not loads:
            l = rng.randint(1, len(reload))
            loads.append((len(ev), l))
            ev.append({'a': 'load', 'l': l, 'd': 0, 'n': rng.choice(names), 'alt': rng.random() < .3})
        else:
            i, l = rng.choice(loads[-4:])
            ev.append({'a': 'render', 'l': l, 'd': 0, 'n': '', 'of': i})
    return {'names_': names, 'dirs': dirs, 'reload': reload, 'events': ev, 'pkg': pkg, 'path': rng.randrange(3),
            'unit': rng.choice(UNITS),
            'names': {} if pkg or rng.random() < .5 else {'a': 'a.html5', 'b': 'sub/b.html', 'c': 'sub/c.d.xml'}}


def rowof(c, o):
    """The case as LoaderTrace reads it: renderings of what could not be
    loaded are left out."""
    events, obs = [], []
    for i, (e, x) in enumerate(zip(c['events'], o['obs'])):
        if e['a'] == 'render':
            if o['obs'][e['of']]['r'] != 'ok':
                continue
            e = dict(e, x=o['obs'][e['of']]['id'])
        events.append(dict(e, f=e.get('f', {'k': 'absent'})))
        obs.append(x)
    return {'names': c['names_'], 'dirs': c['dirs'], 'reload': c['reload'], 'events': events, 'obs': obs}


def histories(chk, n, pkg=False):
    cases = [history(chk.rng, pkg) for _ in range(n)]
    obs = real.run('loader_driver.py', cases)
    todo = []
    for c, o in zip(cases, obs):
        if o['k'] != 'ok':
            chk.violation('no result: %s %s' % (o.get('type'), o.get('msg')), {'case': c, 'observed': o})
        else:
            todo.append((c, o, rowof(c, o)))
    vs, st = tlc.check_cases('LoaderTrace', [r for _, _, r in todo])
    for (c, o, r), v in zip(todo, vs):
        if v['why']:
            i = v['at'] - 1
            chk.violation('%s: step %d observes %r, must be %r' % (v['why'], v['at'], r['obs'][i], v['should']),
                          {'case': dict(c, events=r['events'][:i + 1]), 'observed': r['obs'][:i + 1]})
    chk.count(st, len(todo), 'histories of %s' % ('PackageLoader' if pkg else 'FileLoader'), False,
              [{'events': todo[0][2]['events'][:8], 'observed': todo[0][2]['obs'][:8]}] if todo else [])


def run(chk):
    exhaustive(chk, 'search', None if not chk.deep else 120000)
    exhaustive(chk, 'deps')
    exhaustive(chk, 'fixed')
    exhaustive(chk, 'search', 600 if not chk.deep else 20000, pkg=True)
    histories(chk, chk.n(500, 8000))
    histories(chk, chk.n(150, 2000), pkg=True)
