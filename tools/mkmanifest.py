"""Regenerate MANIFEST.json from the checks present."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
NA = {
    'C28': 'float32 rounding error of runtime values: no sound static argument in reach bounds it usefully; the exact-arithmetic identity of the vectors is claimed by C18, C19, C21 and C22 instead',
    'C29': 'page-level memory behaviour belongs to the kernel and numpy.memmap, not to a construct in this source; that a read-only memmap is what is returned is claimed by C07',
    'C30': 'running time of numpy kernels and of Python containers is not decidable from this source',
}
TECH = 'static analysis: value-numbering abstract interpretation of the source (effect traces and symbolic normal forms); '
NOTE = ('Every obligation is derived from the current sources: functions are summarised (branches joined, loops summarised, calls inlined) into effect traces and terms in normal form, '
        'nothing of the repository is executed. An alarm needs a definite violation; what the analysis cannot decide is reported as undecided in the evidence. '
        'Trusted: the front end and library models in ffsa/, type annotations; equalities that are not identities of normal forms rest on random interpretation of the terms (one-sided error).')
if __name__ == '__main__':
    props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(ROOT + '/checks/%s.py' % i.lower()):
            m = importlib.import_module('checks.' + i.lower())
            own = open(ROOT + '/checks/%s.py' % i.lower()).read()
            checks.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': './check ' + i + ' --thorough', 'evidence_file': 'evidence/%s.json' % i,
                           'technique': TECH + (m.TECHNIQUE if '\nTECHNIQUE =' in own else '; '.join(m.RULES)), 'level': 'other', 'level_note': NOTE + (' ' + m.NOTE if '\nNOTE =' in own else '')})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
    json.dump({'version': 1, 'setup_cmd': 'test -x /opt/venv/bin/python', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo. All checks analyse the sources under /repo/src and need no build; see DESIGN.md.'}, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'n/a')
