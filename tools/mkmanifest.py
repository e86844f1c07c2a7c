"""Writes MANIFEST.json from properties.jsonl and the checks that exist (run by hand after adding a check)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'generated simulations against an independent shift-based Maxwell residual (Hypothesis)',
    'C02': 'metamorphic: superposition and reciprocity of generated simulations (Hypothesis)',
    'C03': 'metamorphic: mirrored, exchanged, rolled and extruded simulations (Hypothesis)',
    'C04': 'metamorphic: generated simulations in other units and scales (Hypothesis)',
    'C05': 'generated open-space simulations against analytic Green functions and enlarged domains (Hypothesis)',
    'C06': 'generated probes against discrete Poynting theorem and metamorphic relations (Hypothesis)',
    'C07': 'generated mode sources against a dense reference eigensolver (Hypothesis)',
    'C08': 'generated operation histories against freshly built simulations (Hypothesis)',
    'C09': 'generated initializations against a cell-by-cell model (Hypothesis)',
    'C10': 'generated Kerr problems against the nonlinear Maxwell residual and between solvers (Hypothesis)',
    'C11': 'generated fields against a reference model and numerical derivatives (Hypothesis)',
    'C12': 'generated gradients against finite differences of an independent objective (Hypothesis)',
    'C13': 'generated gradients against finite differences of an independent objective (Hypothesis)',
    'C14': 'generated gradients against finite differences of an independent objective (Hypothesis)',
    'C15': 'generated objectives against direct evaluation and numerical partials (Hypothesis)',
    'C16': 'generated filters and projections against a brute-force reference and algebraic laws (Hypothesis)',
    'C17': 'generated optimization runs against a reference optimizer and invariants (Hypothesis)',
    'C18': 'generated evaluation histories against fresh optimizations (Hypothesis)',
    'C19': 'generated derivative checks against enumerated finite differences (Hypothesis)',
    'C20': 'generated scans against direct simulations (Hypothesis)',
    'C21': 'generated limited optimizations against a reference rescaling (Hypothesis)',
    'C22': 'generated devices against a cell-by-cell reference (Hypothesis)',
    'C23': 'generated binarized objectives against reference penalties and numerical derivatives (Hypothesis)',
    'C24': 'generated plots, reading the drawn data back (Hypothesis)',
    'C25': 'generated sparse systems against a dense reference solver (Hypothesis)',
    'C26': 'generated valid and invalid requests against the documented contract (Hypothesis)',
    'C27': 'generated folder contents and runs in a scratch directory with an audit hook (Hypothesis)',
    'C28': 'generated densities against reference maps and numerical derivatives (Hypothesis)',
    'C29': 'generated operation histories with snapshots of every array handed over (Hypothesis)',
}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(here, 'checks', i.lower() + '.py')):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    sys.path.insert(0, here)
    checks.append(dict(property=i, quick_cmd='bash run.sh %s quick' % i, thorough_cmd='bash run.sh %s thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique='property-based testing: ' + TECH[i], level='exploration',
                       level_note='Search over generated cases with an independent oracle, seeded by VERIF_SEED; shows presence, '
                                  'never absence, of violations. Trusts numpy, scipy and the reference formulas in /verif/vlib; '
                                  'the domain and the tolerances are in DESIGN.md and in the module checks/%s.py.' % i.lower()))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='Every check runs the code in /repo (imported from its working tree, nothing to build). '
               'A violation is shrunk and saved to replays/; run it again with: bash run.sh <id> --replay <file>.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
