"""Regenerate DESIGN.md from tools/design_head.md, the checks, properties.jsonl, known_findings.txt and seeded/."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.mkmanifest import NA
from tools.design_text import HEAD, REACH, TAIL

if __name__ == '__main__':
    out = [HEAD.strip(), '', '## Properties', '']
    ev = lambda i: json.load(open(ROOT + '/evidence/%s.json' % i)) if os.path.exists(ROOT + '/evidence/%s.json' % i) else {}
    for l in open(ROOT + '/properties.jsonl'):
        p = json.loads(l)
        i = p['id']
        out += ['### %s %s' % (i, p['title']), '']
        if i in NA:
            out += ['Not applicable: ' + NA[i] + '.', '']
            continue
        m = importlib.import_module('checks.' + i.lower())
        out += ['Method: ' + m.TECHNIQUE + '.', '', 'Rules (each obligation names one):', '']
        out += ['- `%s`: %s' % kv for kv in m.RULES.items()]
        out += ['', REACH[i].strip(), '']
    out += ['## Planted bugs', '', 'Every change below builds, passes the stable tests and fails its own demo. "Caught" means that the check of the property exits 1 with a VIOLATION line.', '',
            '| seed | property | what it breaks | needs | caught |', '|---|---|---|---|---|']
    res = {}
    if os.path.exists(ROOT + '/tools/caught.txt'):
        for l in open(ROOT + '/tools/caught.txt'):
            w = l.split()
            if len(w) > 2:
                res[w[0]] = w[2]
    for s in sorted(os.listdir(ROOT + '/seeded')):
        m = json.load(open(ROOT + '/seeded/%s/meta.json' % s))
        out.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], m['needs'], {'CAUGHT': 'yes'}.get(res.get(s), 'no')))
    out += ['', TAIL.strip(), '', '## Defects found and repaired', '']
    for l in open(ROOT + '/known_findings.txt'):
        if l.startswith('fixed:'):
            out.append('- ' + l[7:].strip())
    open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
