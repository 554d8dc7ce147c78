import json, os, re
V = '/verif'
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
T = 'path-sensitive value-flow abstract interpretation of type-checked MIR (term normal forms, no solver, nothing executed)'
TECH = {
    'C07': T + '; monomorphic serde code interpreted',
    'C15': 'constant evaluation of the dictionary tables as the compiler lowered them; ' + T,
    'C17': 'drop-glue and volatile-write effect analysis on MIR; ' + T,
    'C19': 'ownership/typestate analysis of raw handles on MIR (allocation and release pairs with layout)',
    'C24': T + ' repeated for every feature combination',
    'C25': 'panic-reachability by path-sensitive value-flow abstract interpretation of MIR',
    'C31': 'call-graph effect analysis of the monomorphized program, with queries over its statics and types',
    'C32': 'query over the type-checked signatures and representations of the exported functions',
    'C27': 'query over the type-checked program: impls, field visibility and signatures',
}
NOTE = ('Sound over all inputs for the code analysed relative to the library models (kc/models.py) and opaque cryptographic primitives; '
        'anything the analysis cannot decide is reported as a violation, never passed over. ')
NA = {}
p = V + '/tools/notes.json'
NOTES = json.load(open(p)) if os.path.exists(p) else {}
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
for i in ids:
    if os.path.exists(V + '/kc/checks/%s.py' % i.lower()) and i not in NA:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': TECH.get(i, T), 'level': 'other', 'level_note': NOTE + NOTES.get(i, '')})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m['notes'] = 'See DESIGN.md. KNOWN-FINDINGS.txt lists the repaired defects.'
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
