"""Clause-level preprocessing and clause-set utilities."""
from engine import *

META = {'title': 'Preprocessing eliminates clauses and predicates only when that is allowed',
 'statement': 'Blocked clause elimination, (defined) predicate elimination, goal-directed transformation, definition unfolding and the other '
              'clause-level preprocessing steps remove or replace a clause only after the conditions of the technique were established for all '
              'resolution partners, keep protected symbols, conjecture clauses and equality untouched where the technique requires it, update '
              'occurrence counts and queues for every removed and added clause, and archive what they remove.',
 'over': ['inputs'],
 'quant': 'for every clause set and every order of elimination',
 'why': 'The tests are 19 whole problems with the default strategy; these steps are enabled by few strategies.',
 'files': ['CLAUSES/ccl_bce.c',
           'CLAUSES/ccl_pred_elim.c',
           'CLAUSES/ccl_unfold_defs.c',
           'CONTROL/cco_preprocessing.c',
           'CLAUSES/ccl_gd_transformation.c'],
 'mech': [('EliminateBlockedClauses', 'CLAUSES/ccl_bce.c'),
          ('PredicateElimination', 'CLAUSES/ccl_pred_elim.c'),
          ('ClauseSetUnfoldEqDefs', 'CLAUSES/ccl_unfold_defs.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; satisfiability preservation of the techniques is a published result and assumed.'}

SCOPE = ['CLAUSES/ccl_bce.c',
 'CLAUSES/ccl_pred_elim.c',
 'CLAUSES/ccl_unfold_defs.c',
 'CONTROL/cco_preprocessing.c',
 'CLAUSES/ccl_gd_transformation.c',
 'CLAUSES/ccl_clausefunc.c']


def check(k):
    k.contracts()
