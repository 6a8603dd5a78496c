#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []
I, CV, DC, CP = ('dcf/interpolation.py', 'dcf/curves/curve.py',
                 'dcf/daycount.py', 'dcf/compounding.py')
IR, CR, VO, FX = ('dcf/curves/interestratecurve.py',
                  'dcf/curves/creditcurve.py',
                  'dcf/curves/volatilitycurve.py', 'dcf/curves/fx.py')
CF, CO, PO, PD = ('dcf/cashflows/cashflow.py', 'dcf/cashflows/contingent.py',
                  'dcf/cashflows/payoffs.py', 'dcf/cashflows/products.py')
PR, PL, RC = 'dcf/pricer.py', 'dcf/plans.py', 'dcf/ratingclass.py'
M = 'dcf/models/'


def prop(id, title, statement, over, text, why, files, mech, note,
         observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement,
                      over=over.split(), text=text, why=why,
                      files=files, mech=mech, note=note))


from metadata import fill  # noqa: E402
fill(prop, NA, globals())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': a, 'where': b}
                                          for a, b in p['mech']]}}) + '\n')
    checks = []
    for p in PROPS:
        if not os.path.exists(os.path.join(HERE, 'checks',
                                           p['id'].lower() + '.py')):
            NA.append((p['id'], 'check not built yet'))
            continue
        cmd = 'python3-vt run.py %s --tier ' % p['id']
        checks.append({
            'property': p['id'], 'quick_cmd': cmd + 'quick',
            'thorough_cmd': cmd + 'thorough',
            'technique': 'symbolic execution of the unchanged Python source '
                         'with path exploration; every claim decided by Z3 '
                         'over all values within the bounds; counterexamples '
                         'replayed on the real package',
            'level': 'model_checking', 'level_note': p['note']})
    m = {'version': 1,
         'setup_cmd': 'python3-vt run.py --selftest',
         'checks': checks,
         'not_applicable': [{'property': a, 'reason': b} for a, b in NA]}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
