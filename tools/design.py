"""writes DESIGN.md from tools/design_head.md, the registered harnesses,
tools/design_tail.md and seeded/ (tools/seeded_results.json)"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    t = os.path.join(HERE, 'tools')
    out = [open(os.path.join(t, 'design_head.md')).read()]
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        props = [json.loads(x) for x in f]
    for p in props:
        reg = importlib.import_module('checks.' + p['id'].lower()).REG
        out.append('### %s %s\n\n%s\n\n' % (p['id'], p['title'],
                                          p['statement']))
        out.append('Bounds: %s.\n\n' % reg.meta['bounds'])
        for h in reg.harnesses:
            q = sum(1 for x in h.params if x[1] == 'quick')
            n = '%d' % q + ('+%d' % (len(h.params) - q)
                            if len(h.params) > q else '')
            out.append('* `%s` (%s): %s\n' % (
                h.name, n, ' '.join(h.note.split()) or '—'))
        out.append('\n')
    out.append(open(os.path.join(t, 'design_tail.md')).read())
    sd = os.path.join(HERE, 'seeded')
    ids = sorted(os.listdir(sd)) if os.path.isdir(sd) else []
    res = {}
    rf = os.path.join(t, 'seeded_results.json')
    if os.path.exists(rf):
        with open(rf) as f:
            res = json.load(f)
    out.append('## 7. Planted bugs\n\nEach was written from the property and '
               'the code, keeps the 178 stable tests passing, and lives in '
               '`seeded/<id>`. "by" lists the checks that reported it.\n\n'
               '| id | property | needs | caught by |\n|---|---|---|---|\n')
    for i in ids:
        mf = os.path.join(sd, i, 'meta.json')
        if os.path.exists(mf):
            with open(mf) as f:
                m = json.load(f)
            out.append('| %s | %s | %s | %s |\n' % (
                i, m['property'], m['needs'], res.get(i, '?')))
    out.append('\n' + open(os.path.join(t, 'design_end.md')).read()
               if os.path.exists(os.path.join(t, 'design_end.md')) else '')
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write(''.join(out))


main()
