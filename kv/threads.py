"""C11: loads in several threads while files change."""
from . import real, tlc


def leaf(v, m):
    return {'k': 'leaf', 'v': v, 't': '', 'm': m}


BAD = {'k': 'bad', 'v': 'x', 't': '', 'm': 9}


def write(f, d=1, n='a'):
    return {'a': 'write', 'd': d, 'n': n, 'f': f}


def remove(d=1, n='a'):
    return {'a': 'remove', 'd': d, 'n': n}


LOAD = {'a': 'load', 'n': 'a'}


def scenarios(chk):
    out = []

    def add(before, ops, turns, env=(), last=('a', 'a'), dirs=1, reload=True):
        out.append({'dirs': dirs, 'reload': [reload], 'before': list(before), 'ops': list(ops), 'turns': list(turns),
                    'env': list(env), 'last': list(last), 'sweep': chk.n(11, 1)})
    first = write(leaf('v1', 1))
    ALL = 10 ** 6
    for reload in (True, False):
        # two first loads; two loads of a cached template
        add([first], [['a'], ['a']], [(2, ALL)], reload=reload)
        add([first, LOAD], [['a'], ['a']], [(2, ALL)], reload=reload)
        # a change before: both find it stale
        add([first, LOAD, write(leaf('v2', 2))], [['a'], ['a']], [(2, ALL)], reload=reload)
        # a change while loading, for the first time or again
        for before in ([first], [first, LOAD], [first, LOAD, write(leaf('v2', 2))]):
            for env in ([write(leaf('v3', 3))], [remove()], [write(leaf('v0', 0))], [write(BAD)],
                        [remove(), write(leaf('v3', 3))]):
                add(before, [['a', 'a']], [(0, 1), (1, 3), (0, 1)], env, reload=reload)
    # the second thread comes with the change, or with another template
    add([first, LOAD], [['a'], ['a', 'a']], [(0, 1), (2, ALL)], [write(leaf('v2', 2))])
    add([first, LOAD], [['a'], ['a', 'a']], [(2, ALL), (0, 1), (2, ALL)], [write(leaf('v2', 2))])
    both = [first, write(leaf('w1', 1), n='b')]
    add(both, [['a'], ['b', 'a']], [(2, ALL)], last=('a', 'b'))
    add(both + [LOAD, write(leaf('v2', 2))], [['a', 'b'], ['b', 'a']], [(2, ALL)], last=('a', 'b'))
    # directories
    add([write(leaf('v1', 1), 2), LOAD], [['a', 'a']], [(0, 1)], [write(leaf('v2', 1), 1)], dirs=2)
    add([write(leaf('v1', 1), 2), write(leaf('v2', 1), 1), LOAD], [['a', 'a']], [(0, 1)], [remove(1)], dirs=2)
    add([write(leaf('v1', 1), 2), write(leaf('v2', 1), 1)], [['a', 'a'], ['a']], [(0, 1), (2, ALL)], [remove(1)], dirs=2)
    return out


def randoms(chk, n):
    r = chk.rng
    out = []
    for _ in range(n):
        dirs = r.choice([1, 1, 2])
        m = [0]

        def change():
            m[0] += 1
            x = r.random()
            name = r.choice('ab')
            return write(dict(BAD, m=m[0]) if x < .12 else leaf('%s%d' % (name, m[0]), m[0]), r.randint(1, dirs), name)
        before = [write(leaf('a0', 0), dirs, 'a'), write(leaf('b0', 0), dirs, 'b')]
        have = set([(dirs, 'a'), (dirs, 'b')])
        for _ in range(r.choice([0, 1, 2])):
            before.append({'a': 'load', 'n': r.choice('ab')})
        env = []
        for _ in range(r.choice([0, 1, 2, 3])):
            if have and r.random() < .25:
                d, name = r.choice(sorted(have))
                have.discard((d, name))
                env.append(remove(d, name))
            else:
                e = change()
                have.add((e['d'], e['n']))
                env.append(e)
        threads = r.choice([2, 2, 3])
        ops = [[r.choice('aab') for _ in range(r.choice([1, 2, 3]))] for _ in range(threads)]
        turns = [(r.randint(0, threads), r.choice([1, 3, 8, 20, 60])) for _ in range(r.randint(4, 16))]
        turns = [(t, 1 if t == 0 else k) for t, k in turns]
        out.append({'dirs': dirs, 'reload': [r.random() < .8], 'before': before, 'ops': ops, 'turns': turns,
                    'env': env, 'last': ['a', 'b', 'a'], 'unit': 10 ** 7})
    return out


def check(chk, label, cases):
    # sweeps are long: spread them
    obs = real.run('mt_driver.py', cases, spread=True)
    rows, at = [], []
    for c, o in zip(cases, obs):
        if o['k'] != 'ok':
            chk.violation('no result: %s %s' % (o.get('type'), o.get('msg')), {'case': c, 'observed': o})
            continue
        for run in o['runs']:
            if run['stuck']:
                chk.violation('a load does not end', {'case': c, 'turns': run['turns'], 'observed': run['events']})
                continue
            rows.append({'names': ['a', 'b'], 'dirs': c['dirs'], 'reload': c['reload'][0],
                         'threads': max(1, len(c['ops'])), 'events': run['events']})
            at.append((c, run))
    vs, st = tlc.check_cases('LoaderMTTrace', rows)
    for (c, run), v in zip(at, vs):
        if v['why']:
            chk.violation('%s (up to event %d)' % (v['why'], v['at']),
                          {'case': dict(c, turns=run['turns']), 'observed': run['events'][:v['at']]})
    chk.count(st, len(rows), label, False,
              [{'turns': at[0][1]['turns'], 'events': at[0][1]['events']}] if at else [])


def run(chk):
    rc, text, st = tlc.run('LoaderMTCheck', env={'VERIF_TIER': chk.tier}, workers=tlc.JOBS, heap='6g')
    if rc != 0:
        raise tlc.MachineryError('LoaderMTCheck: ' + text[-2000:])
    chk.count(st, 0, 'LoaderMTCheck: the protocol', True)
    check(chk, 'interruption after every step', scenarios(chk))
    check(chk, 'random schedules', randoms(chk, chk.n(300, 6000)))
