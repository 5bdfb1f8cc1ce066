#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = registry.NOT_APPLICABLE
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in list(registry.PROPS.values()) + NA:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']] or [{'name': 'tables', 'where': p['files'][0]}],
                        'observe_at': p['observe'], 'hook_needed': ''}}) + '\n')
checks = []
for p in registry.PROPS.values():
    checks.append({'property': p['id'], 'quick_cmd': f"python3 run.py {p['id']} --tier quick", 'thorough_cmd': f"python3 run.py {p['id']} --tier thorough",
        'technique': registry.technique(p),
        'level': registry.LEVEL, 'level_note': 'Within the bounds every value is decided by the solver: ' + p['bounds'] + '. Assumes: ' + '; '.join(p['assumes'] + registry.trust(p)) + '.'})
m = {'version': 1, 'setup_cmd': 'python3 lib/setup.py', 'hooks': {'guard': 'cfg(finquant_verif)', 'enable': "RUSTFLAGS='--cfg finquant_verif'",
     'source_commits': registry.HOOK_COMMITS}, 'checks': checks, 'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA]}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

# DESIGN.md: head + one section per property + the planted changes
out = [open(os.path.join(ROOT, 'lib', 'design_head.md')).read().rstrip(), '', '## Properties', '']
for p in registry.PROPS.values():
    out += [f"### {p['id']} {p['title']}", '', p['statement'], '',
            f"- Decided by: {' and '.join({'kani': 'Kani/CBMC', 'lsym': 'lsym/z3'}[e] for e in registry.engines(p))}. {p['how']}",
            f"- Quantified over: {p['text']}. Bounds: {p['bounds']}.",
            f"- Why tests cannot settle it: {p['why']}.",
            f"- Obligations: {', '.join('`' + h + '`' for h in p['kani'] + p.get('lsym', []))}"
            + (f"; thorough also {', '.join('`' + h + '`' for h in p['kani_thorough'] + p.get('lsym_thorough', []))}" if p['kani_thorough'] or p.get('lsym_thorough') else '') + '.', '']
    if p['assumes']: out[-1:] = ['- Assumes: ' + '; '.join(p['assumes']) + '.', '']
out += ['## Not decided by this family', '']
for p in NA: out += [f"- {p['id']} ({p['title']}): {p['reason']}."]
out += ['', '## Repaired defects', '']
for l in open(os.path.join(ROOT, 'known_findings.txt')):
    if l.startswith('fixed: '): out.append('- ' + l[7:].strip())
out += ['', '## Recorded findings', '']
fs = ['- ' + l[9:].strip() for l in open(os.path.join(ROOT, 'known_findings.txt')) if l.startswith('finding: ')]
out += fs or ['None.']
out += ['', '## Planted changes', '', 'Each is in seeded/<id>; the check named is that of its property.', '', '| change | property | caught | needs |', '|---|---|---|---|']
rf = os.path.join(ROOT, 'lib', 'seed_results.json')
R = json.load(open(rf)) if os.path.exists(rf) else {}
for i in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    mf = os.path.join(ROOT, 'seeded', i, 'meta.json')
    if os.path.exists(mf):
        q = json.load(open(mf)); out.append(f"| {i} | {q['property']} | {R.get(i, 'not run')} | {q['needs']} |")
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
