"""C18: the dollar sign, character by character."""
from . import real, tlc

PLACES = ['text', 'attribute', 'cdata', 'script', 'plain', 'escaped']
TOKENS = list('${}x.\' \nX_y1"<&>') + ['$x', '${', '${x', '$$', 'x.x', "'x'", '{}', "'''", '"""', '${x}', "${'", "'}",
                                       '\n', '(', ')', ',', '#', 'e', '%', '\\',
                                       '_', 'x_x', '_x', '[', ']']

# mostly complete ones
CHUNKS = ['$x', '$x.x', '$X', '${x}', '${ x }', "${'}'}", '${"{"}', '${{}}', '${{x}}', '${{"}"}}', '${"\'"}', "${'\"'}",
          '$$', "'", '"', '{', '}', '\n', '<', '&', '${x\n}', '${\nx}', "${'''\n}'''}", '1', '.', ' ', 'x', '{}', '$$x', '$${x}',
          "${x . x}", "${'$x'}", "${'a' \"b\"}", '${{ }\n}', '#', "it's", '(', '%', '$', ')', '"""', '${{\n\'x\'\n}}',
          '${(\n\n\nx)}', "${{\n'x'\n\n\n}}", '${(\nx\n,\nx\n)}', "${'''\n\n\n\n}'''}", '${\n\n\n(\n\n\nx\n\n)}', '${x, x}', '${x,}',
          '${()}', "${'a', ('b',)}", '${(x, {}), "}"}', '$x_x', '$_x.x', '$x1', '${x_}', '_', '1', '$xx', '${xx}_', ',',
          "${'<&>'}", "${'${x}'}", '$x.x.x', '$x$x', '$x{', '$x}', '${x}{', '${x}}', '\\']


def run(chk):
    rows, st = tlc.generate('DollarGen', chk.tier, cfg='DollarGen')
    todo = []
    for i, r in enumerate(rows):
        short = len(r['c']) <= chk.n(3, 4)
        for k, m in enumerate(r['ms']):
            if m['status'] != 'unspec' and (short or (k + i) % 6 in (0, 4)):
                todo.append((r['c'], m))
    obs = real.run('string_driver.py', [{'s': s, 'place': m['place']} for s, m in todo])
    for (s, m), o in zip(todo, obs):
        why = compare(m, o)
        if why:
            chk.violation(why, {'string': s, 'place': m['place'], 'expected': m, 'observed': o})
    chk.count(st, len(todo), 'all short strings', True,
              [{'string': s, 'meaning': m} for s, m in chk.rng.sample(todo, 2)])

    cases = []
    for _ in range(chk.n(4000, 60000)):
        tokens = chk.rng.choice([TOKENS, CHUNKS, CHUNKS])
        s = ''.join(chk.rng.choice(tokens) for _ in range(chk.rng.randint(2, 9)))
        place = chk.rng.choice(PLACES)
        if place in ('plain', 'escaped') and ('{%' in s or '\\' in s or '%' in s):
            place = 'text'      # other things start there: TextScan.tla
        if place in ('cdata', 'script') and ']]>' in s:
            continue
        cases.append({'s': s, 'place': place})
    obs = real.run('string_driver.py', cases)
    vs, st = tlc.check_cases('DollarTrace', [dict(c, k=o['k'], out=o.get('out', '')) for c, o in zip(cases, obs)])
    for c, o, v in zip(cases, obs, vs):
        if v['why']:
            chk.violation(v['why'], dict(c, expected={'status': v['status'], 'out': v['out']}, observed=o))
    n = sum(v['status'] != 'unspec' for v in vs)
    chk.count(st, n, 'random strings', False)


def compare(m, o):
    if o['k'] not in ('ok', 'err'):
        return 'no result'
    if m['status'] == 'err':
        return 'an error must be raised, but it rendered' if o['k'] == 'ok' else ''
    if o['k'] == 'err':
        return 'the template must render, but failed: %s %s' % (o['type'], o['msg'])
    return '' if o['out'] == m['out'] else 'different output'
