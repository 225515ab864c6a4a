"""C21: malformed templates are refused."""
from . import real, tlc


def why(want, case, o):
    if o['k'] not in ('ok', 'err'):
        return 'no result'
    if want['k'] == 'ok':
        return '' if o['k'] == 'ok' else 'a template without mistake is refused: ' + o['msg']
    if o['k'] == 'ok':
        return 'a malformed template is accepted'
    if not want['kind']:
        return ''
    if want['kind'] not in o['bases']:
        return 'another error: %s %s' % (o['bases'][0], o['msg'])
    if o['file'] != case['name']:
        return 'the error names another file: %s' % o['file']
    if not isinstance(o['line'], int) or not want['from'] <= o['line'] <= want['to']:
        return 'the error names another line: %s' % o['line']
    if not o['msg'].startswith('[%s:%d] ' % (case['name'], o['line'])):
        return 'the message does not start with file and line'
    if o['line'] > 1:
        src = case['src'].replace('\r\n', '\n').split('\n')[o['line'] - 1]
        if '\t --> %s\n' % src not in o['msg']:
            return 'the message does not show the line'
    return ''


def run(chk):
    for kind in ('xml', 'text'):
        rows, st = tlc.generate('Malformed', chk.tier, cfg='Malformed', env={'KIND': kind})
        cases = []
        for i, r in enumerate(rows):
            src = r['doc']
            if kind == 'xml' and (i // 3) % 3 == 1:
                src = src.replace('\n', '\r\n')
            name = ['page.html', 'p.xml', 'tpl.html5'][i % 3] if kind == 'xml' else 'page.txt'
            cases.append({'src': src, 'how': 'file' if i % 4 == 1 else kind, 'name': name})
        obs = real.run('bad_driver.py', cases)
        for r, c, o in zip(rows, cases, obs):
            w = why(r['want'], c, o)
            if w:
                chk.violation(w, dict(c, expected=r['want'], observed=o))
        chk.count(st, len(cases), 'one mistake anywhere: ' + kind, True,
                  [{'template': cases[i]['src'], 'expected': rows[i]['want']} for i in chk.rng.sample(range(len(rows)), 3)])
