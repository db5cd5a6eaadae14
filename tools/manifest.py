"""Regenerates MANIFEST.json from engine/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
import checks
NA = {
 'T02': 'variant.h holds no code of its own: it imports the third-party mpark variant, whose header is not part of this tree (empty submodule), so there is nothing of mhx/libembedded to execute.',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = dict(version=1, setup_cmd='true', checks=[], not_applicable=[],
  notes='Every check compiles the harness and the headers of /repo to LLVM IR on each run, executes the IR symbolically (engine/symex.py) and lets z3 decide each assertion; counterexamples are replayed natively before being reported. See DESIGN.md.')
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out['checks'].append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i, evidence_file='evidence/%s.json' % i,
          technique='symbolic execution of the compiled headers (LLVM IR) with SMT (z3%s) deciding every assertion; native replay of counterexamples' % (', nlsat for real arithmetic' if c.get('real') else ' bit-vectors'),
          level='other', level_note='Bounded: ' + c['bounds'] + '. ' + '; '.join(c.get('assumptions', []))))
    else: out['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(out, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
