"""C15: the syntax of text templates, character by character."""
from . import real, tlc
from .dollar import compare

TEXTS = ['a', 'b', ' ', '  ', '\t', '\n', '\n', '\\\n', '\\\\', '%', '{', '}', '$x', '$$', '${x}', "'", '"', 'a\n', ' \n', '$x.x',
         '<', '%}', '%%if', '% if', '100%', "${'%}'}", "${'{%if t%}'}", '-', '{}', '${"\\n%end"}', '#', '{ %', '\r\n', 'a\r\n', '\\\r\n']
OPENS = ['{%if t%}', '{%if f%}', '{%-if t%}', '{%-if f-%}', '{%if t-%}', '%if t\n', '%if f\n', '  %if t\n', '%for i in l\n',
         '\t%for i in l\n', '{%for i in l%}', '{%-for i in l-%}', '{%if  t %}', '%if  t \n', '{%for i in l -%}', '%if t\r\n', '%for i in l\r\n', ' %if f \r\n']
MIDS = ['{%else%}', '{%-else-%}', '%else\n', ' %else\n', '%else\r\n', '{%else %}', '{%else -%}']
ENDS = ['{%end%}', '{%-end%}', '{%end-%}', '{%-end-%}', '%end\n', '  %end\n', '%end\r\n', ' %end \r\n', '{%end %}']


def seq(rng, n, depth=0, inloop=False):
    out = []
    for _ in range(n):
        if depth < 4 and rng.random() < .35:
            o = rng.choice(OPENS)
            k = rng.randint(0, 4)
            out += [o] + seq(rng, k, depth + 1, inloop or 'for' in o)
            if 'if' in o and rng.random() < .5:
                out += [rng.choice(MIDS)] + seq(rng, rng.randint(0, 3), depth + 1, inloop)
            out.append(rng.choice(ENDS))
        elif inloop and rng.random() < .3:
            out.append(rng.choice(['$i', '${i}']))
        else:
            out.append(rng.choice(TEXTS))
    return out


def lines(rng, ts):
    """Line tags are only tags at the start of a line: mostly put them there."""
    out = ''
    for t in ts:
        if t.endswith('\n') and '%' in t and '{' not in t and out and not out.endswith('\n') and rng.random() < .9:
            out += rng.choice(['\n', 'b\n', '\\\n'])
        out += t
    return out


def run(chk):
    rows, st = tlc.generate('TextScanGen', chk.tier, cfg='TextScanGen')
    obs = real.run('string_driver.py', [{'s': r['s'], 'place': 'whole'} for r in rows])
    for r, o in zip(rows, obs):
        why = compare(r, o)
        if why:
            chk.violation(why, {'string': r['s'], 'expected': r, 'observed': o})
    chk.count(st, len(rows), 'all short templates', True,
              [{'template': r['s'], 'status': r['status'], 'output': r['out']} for r in chk.rng.sample(rows, 2)])

    cases = []
    for _ in range(chk.n(3000, 40000)):
        s = lines(chk.rng, seq(chk.rng, chk.rng.randint(1, 6)))
        if s:
            cases.append({'s': s, 'place': 'whole'})
    obs = real.run('string_driver.py', cases)
    vs, st = tlc.check_cases('TextScanTrace', [dict(c, k=o['k'], out=o.get('out', '')) for c, o in zip(cases, obs)])
    for c, o, v in zip(cases, obs, vs):
        if v['why']:
            chk.violation(v['why'], dict(c, expected={'status': v['status'], 'out': v['out']}, observed=o))
    n = sum(v['status'] != 'unspec' for v in vs)
    chk.count(st, n, 'random templates', False)
