#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  /opt/venv/bin/python gen.py"""
import importlib, json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, '/repo']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
P = []


def prop(id, title, statement, over, qtext, why, files, mech, level_note='', built=True, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  level_note=level_note, built=built, na=na, observe=observe))


exec(open(os.path.join(HERE, 'proplist.py')).read())

TECH = ('contract-based deductive verification: the unmodified source of each function is executed symbolically against its '
        'pre/postconditions, obligations discharged by z3, cvc5 and an exact identity prover; contracts also evaluated at run time on the real code')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
            if p['observe']:
                d['anchors']['observe_at'] = p['observe']
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in P:
        if p['built'] and os.path.exists(os.path.join(HERE, 'vf/props', p['id'].lower() + '.py')):
            mod = importlib.import_module('vf.props.' + p['id'].lower()).prop
            checks.append(dict(
                property=p['id'], quick_cmd=f"/opt/venv/bin/python -B check.py {p['id']}",
                thorough_cmd=f"/opt/venv/bin/python -B check.py {p['id']} --tier thorough",
                technique=TECH, level=mod.level, level_note=mod.level_note(), evidence_file=f"evidence/{p['id']}.json"))
        else:
            na.append(dict(property=p['id'], reason=p['na'] or 'check under construction'))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python -B setup_check.py', checks=checks, not_applicable=na,
             notes='No hooks in /repo: the checks execute the unmodified sources. Unbounded obligations and bounded stand-ins are listed separately in the evidence files.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
