"""Regenerates MANIFEST.json from the registered units."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pydv import registry
NA = {
    'C30': 'not claimed: the code only handles square grids of equal spacing and relies on float rounding of coordinates, which the real-number semantics used here cannot decide',
    'C32': 'not claimed: convergence of a numerical minimiser on random data is a statistical statement, not a postcondition a deductive verifier can discharge',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    us = registry.units_of(i)
    if not us:
        na.append(dict(property=i, reason=NA.get(i, 'not claimed yet: contracts still to be written')))
        continue
    bounded = [u for u in us if u.opts.get('bounded')]
    note = ('Every obligation of %d contract unit(s), generated from the current source of the real functions, is discharged by '
            'z3/cvc5 for all inputs and iterations on every run. Trusted: the pydv semantics of the Python/numpy/pandas subset '
            '(cross-checked on concrete runs against the real libraries), floats as reals plus nan/inf classes, unbounded '
            'integers, the solvers. Contracts assumed on callees are listed in the evidence.' % (len(us) - len(bounded)))
    if bounded:
        note += ' Bounded stand-ins (never counted as proved): ' + '; '.join('%s (%s)' % (u.id, u.opts['bounded']) for u in bounded) + '.'
    checks.append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='python3-vt check.py %s --thorough' % i,
                       technique='contract-based deductive verification: symbolic execution of the real source to '
                       'verification conditions, discharged by z3/cvc5, counterexamples replayed on the real code',
                       level='proof', level_note=note))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
               notes='See DESIGN.md. Repairs and findings: known_findings.json. No hooks in /repo.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
