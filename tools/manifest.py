"""writes MANIFEST.json from properties.jsonl"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CF = 'TLC on the TLA+ class file machine (bounded environments), its inputs replayed in the real parser, recorded runs validated as traces of the specification'
TECH = {}
for i in list(range(1, 16)) + [23]: TECH['C%02d' % i] = CF
for i in range(16, 20): TECH['C%02d' % i] = 'TLC on the TLA+ constant pool (all short histories near empty and near full), every history replayed in the real pool, recorded histories validated as traces'
for i in range(20, 23): TECH['C%02d' % i] = 'TLC on the TLA+ descriptor automaton (all short texts), every text replayed in the real code, recorded runs validated as traces'
NOTE = ('Exhaustive on the bounded environments named in DESIGN.md, sampled beyond them; every run of the real code is compared with the '
        'specification by TLC. Trusts TLC, the specification as a reading of the JVM specification, and the harness that records what the public API returns.')
m = dict(version=1, setup_cmd='python3 setup.py', checks=[], not_applicable=[])
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    m['checks'].append(dict(property=p, quick_cmd='VERIF_TIER=quick python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p,
                            technique=TECH[p], level='model_checking', level_note=NOTE))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
