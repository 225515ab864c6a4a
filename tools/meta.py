#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the source of both)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=(), state=(), technique='', note='', claimed=True):
    assert len(title) <= 80, title
    P.append(dict(
        prop={'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                          'observe_at': list(observe), 'hook_needed': None}},
        technique=technique, note=note, claimed=claimed))


XML, TPL, IR, TEXT, LOAD, I18N, UTIL, HTML = ['kajiki/%s.py' % x for x in (
    'xml_template', 'template', 'ir', 'text', 'loader', 'i18n', 'util', 'html_utils')]
RENDER = ['output of render()']
MB = 'TLA+ abstract machine of template semantics (Render.tla): TLC-enumerated families replayed on the code, and random runs of the code validated against the machine'
MBN = ('Exhaustive within the stated family (every choice of its dimensions, each written in several equivalent ways), '
       'sampled beyond it by seeded random templates whose recorded result TLC checks against the machine. '
       'Trusts TLC, the unparser and the driver.')

exec(open(os.path.join(ROOT, 'tools', 'properties.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p['prop'], ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
         'checks': [{'property': p['prop']['id'],
                     'quick_cmd': 'python3 check.py %s quick' % p['prop']['id'],
                     'thorough_cmd': 'python3 check.py %s thorough' % p['prop']['id'],
                     'evidence_file': 'evidence/%s.json' % p['prop']['id'],
                     'technique': p['technique'] or MB, 'level': 'model_checking',
                     'level_note': p['note'] or MBN}
                    for p in P if p['claimed']],
         'not_applicable': [{'property': p['prop']['id'], 'reason': p['note']} for p in P if not p['claimed']],
         'notes': 'Specification language: TLA+, checked with TLC (see DESIGN.md). No hooks in /repo: everything is observed through the public API.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
