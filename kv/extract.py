"""C14: extraction of messages."""
from . import case as kcase
from . import core, lang, real, tlc


def run(chk, label, jobs):
    cases = []
    for j in jobs:
        c = kcase.prepare(j, chk.rng)
        python = chk.rng.random() < .5
        opts = {'extract_python': True} if python else {}
        if chk.rng.random() < .3:
            opts['strip_text'] = True
        cases.append((j, c, python, {'src': c['srcs'][0], 'options': opts}))
    obs = real.run('extract_driver.py', [x[3] for x in cases])
    rows, idx = [], []
    for i, (x, o) in enumerate(zip(cases, obs)):
        if o['k'] != 'ok':
            chk.violation('the messages could not be extracted: %s %s' % (o.get('type'), o.get('msg')),
                          {'source': x[3], 'observed': o})
            continue
        r = kcase.row(x[0], {'k': 'ok'})
        r.update(ext=o['ext'], python=x[2])
        rows.append(r)
        idx.append(i)
    vs, st = tlc.check_cases('ExtractTrace', rows)
    for i, v in zip(idx, vs):
        if v['why']:
            chk.violation(v['why'], {'source': cases[i][3], 'expected': v['msgs'], 'observed': obs[i]})
    chk.count(st, len(cases), label, False, [{'source': cases[0][3]['src'], 'extracted': obs[0].get('ext')}])
