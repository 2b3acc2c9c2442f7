"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules present."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    'C01': 'online monitor: random expression programs against dense matrix semantics',
    'C02': 'online monitor: chains of T/H/bar against dense algebra and object identity',
    'C03': 'monitored product histories: shapes, dtypes, aliasing, counters',
    'C04': 'online monitor: constructed operators against the data they came from',
    'C05': 'online monitor: reductions against dense submatrices',
    'C06': 'online monitor: block operators against assembled matrices',
    'C07': 'trace checking of get/set/slice histories against a model',
    'C08': 'trace checking of store/restart/product histories against dense BFGS',
    'C09': 'trace checking of store/restart/product histories against a dense recursion',
    'C10': 'runs of CG judged by dense true residuals at every budget',
    'C11': 'runs of CGS, BiCGSTAB, TFQMR judged by dense true residuals at every budget',
    'C12': 'runs of MINRES judged by dense true residuals at every limit',
    'C13': 'runs of SYMMLQ judged by dense true residuals at every budget',
    'C14': 'runs of LSQR and LSMR judged by dense least squares',
    'C15': 'runs of CRAIG and CRAIG-MR judged by dense quasi-definite solves',
    'C16': 'offline checking of recorded iterates against explicit Krylov projections',
    'C17': 'product-log monitors at the operator boundary against budgets and reports',
    'C18': 'side-effect monitors (input bytes, RNG, fp state, stdout), repeated runs',
    'C19': 'histories of solves on one object compared bitwise with new objects',
    'C20': 'offline checking of recorded histories against dense recomputation',
    'C21': 'runs on trivial and boundary problems, outcome monitors',
    'C22': 'paired preconditioned, unpreconditioned and transformed runs',
    'C23': 'families of runs over tolerances; criteria recomputed along the run',
    'C24': 'runs on unsuitable operators, verdict monitors',
    'C25': 'repeated probe runs on operators of known class, verdict monitors',
    'C26': 'online checking of returned roots in exact rational arithmetic',
    'C27': 'online monitor: products against dense Poisson matrices',
    'C29': 'estimates at every iteration limit against dense norms and condition numbers',
    'C30': 'fault injection at recorded products; exception identity and bitwise comparison of later use',
    'C31': 'nested and interleaved runs under a controlled scheduler, compared bitwise with runs alone',
    'C32': 'solves with wrongly sized data; exception and side-effect monitors, bitwise comparison of later use',
    'C33': 'allocation monitor at early and late products of long runs, address-space limit',
    'C34': 'monotonicity monitor over all iterates of long ill-conditioned runs with known solutions',
    'C35': 'iterates of long runs against Chebyshev bounds on the known spectrum; verdicts under sufficient budgets',
    'C36': 'every number logged or shown compared with separate solves limited to that step, attributes and codes',
    'C37': 'paired runs over equivalent statements of one problem, compared step by step',
    'C38': 'floating-point sanitizer: trapped runs compared bitwise with untrapped ones',
    'C28': 'paired runs over input representations, scalings, permutations',
}
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(R, 'lib', 'props', i.lower() + '.py')):
        na.append(dict(property=i, reason='the check is not finished yet'))
        continue
    checks.append(dict(
        property=i, quick_cmd='python3 check.py %s --tier quick' % i,
        thorough_cmd='python3 check.py %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i, technique='runtime monitoring: ' + T[i], level='exploration',
        level_note='The real code was observed on the randomly generated executions counted in the evidence and '
                   'judged by an independent oracle; nothing is claimed about executions not run. Trusts numpy, '
                   'the 2to3 translation of the project build, and the tolerances stated in the check.'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='Each check translates the working tree of /repo itself (about 1 s) into a scratch directory.'),
          open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
