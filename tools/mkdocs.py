#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the "fixed" list of known_findings.json from the table below."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props import PROPS, FIXED, NA     # noqa

S = 'src/oidcmsg/'


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fp:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            mech = [{'name': m.split(' @ ')[0], 'where': S + m.split(' @ ')[1]} for m in p['mechanism']]
            files = sorted({m['where'].split(':')[0] for m in mech})
            for f in files:
                assert os.path.exists(os.path.join('/repo', f)), f
            fp.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': files, 'mechanism': mech, 'observe_at': p.get('observe', []),
                            'hook_needed': None}}) + '\n')
    checks = []
    for p in PROPS:
        if p['id'] in NA:
            continue
        checks.append({'property': p['id'], 'quick_cmd': './check ' + p['id'],
                       'thorough_cmd': './check %s --tier thorough' % p['id'],
                       'technique': p['technique'], 'level': p.get('level', 'exploration'), 'level_note': p['note']})
    man = {'version': 1,
           'setup_cmd': '/opt/venv/bin/python -c "import ast,glob; [ast.parse(open(f).read()) for f in glob.glob(\'rv/**/*.py\', recursive=True)]" && mkdir -p evidence',
           'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
           'notes': 'No hooks in /repo: the monitors sit at the public API, on the storage directory and, for crash and '
                    'interleaving points, on a trace function the harness installs in its own forked children and threads. '
                    'Repairs of defects are the "fix:" commits listed in known_findings.json.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fp:
        json.dump(man, fp, indent=1)
        fp.write('\n')
    kf = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    kf['fixed'] = ['fixed: property=%s %s %s' % f for f in FIXED]
    with open(os.path.join(ROOT, 'known_findings.json'), 'w') as fp:
        json.dump(kf, fp, indent=1)
        fp.write('\n')


main()


def seeded_table():
    import glob
    import os
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    rows = ['| planted bug | needs | breaks |', '|---|---|---|']
    for d in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d))
        cell = lambda s: ' '.join(str(s).split()).replace('|', '\\|')
        rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), cell(m['needs']), cell(m['what_it_breaks'])))
    p = os.path.join(root, 'DESIGN.md')
    s = open(p).read()
    mark = '<!-- seeded table -->'
    open(p, 'w').write(s[:s.index(mark) + len(mark)] + '\n\n' + '\n'.join(rows) + '\n')


seeded_table()
