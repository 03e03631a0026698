"""writes MANIFEST.json from properties.jsonl and the harness headers"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    h = os.path.join(V, 'harness', p + '.cpp')
    if p in NA or not os.path.exists(h):
        na.append(dict(property=p, reason=NA.get(p, 'check under construction'))); continue
    s = open(h).read()
    bound = ' '.join(re.findall(r'^//@ bound (.*)$', s, re.M)); assume = '; '.join(re.findall(r'^//@ assume (.*)$', s, re.M))
    modes = set(re.findall(r'^//@ mode (\w+)', s, re.M))
    ar = ' and '.join(sorted({'fp': 'IEEE-754 bit-precise', 'real': 'exact real'}[m] for m in modes)) + ' arithmetic'
    checks.append(dict(property=p, quick_cmd='python3-vt /verif/engine/vp.py %s --tier quick' % p, thorough_cmd='python3-vt /verif/engine/vp.py %s --tier thorough' % p,
        technique='symbolic execution of the LLVM IR compiled from /repo, SMT (z3/cvc5) verdict per assertion, counterexamples replayed natively',
        level='model_checking',
        level_note='Every value within the bounds is decided by the solver (%s). Bounds: %s.%s Trusted: clang front end, the IR interpreter and its models of libstdc++/libm calls (cross-checked by native runs of path models), z3/cvc5.' % (ar, bound, ' Assumes: %s.' % assume if assume else '')))
m = dict(version=1, setup_cmd='python3-vt /verif/engine/setup.py', checks=checks, not_applicable=na,
         notes='quick and thorough run the same harnesses; thorough raises the bounds (//@ tier thorough tests, vp_tier()) and the time budgets. Anything left undecided within the budget is printed as INCOMPLETE and recorded in the evidence; --strict turns it into exit 2.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); print(len(checks), 'checks', len(na), 'n/a')
