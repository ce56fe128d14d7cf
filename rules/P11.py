"""All functions that decide redundancy and the indices in front of them."""
from engine import *

META = {'title': 'Clauses and literals are deleted as redundant only when that is justified',
 'statement': 'Forward and backward subsumption, unit subsumption, literal deletion by contextual simplify-reflect, condensation and tautology '
              'deletion remove a clause or literal only when a matching of all literals was found (multiset and orientation respected), when the '
              'remaining clause subsumes the original, or when congruence closure proves a tautology; pre-filters (weights, feature vectors, literal '
              'counts) never exclude a clause pair that the exact test would accept because of inconsistent features between insertion, removal and '
              'query.',
 'over': ['inputs'],
 'quant': 'for every pair of clauses and every state of the subsumption indices',
 'why': 'The tests are 19 whole problems with the default strategy; a wrong deletion makes the prover incomplete or unsound only for particular '
        'clause pairs.',
 'files': ['CLAUSES/ccl_subsumption.c',
           'CLAUSES/ccl_condensation.c',
           'CLAUSES/ccl_context_sr.c',
           'CLAUSES/ccl_tautologies.c',
           'CLAUSES/ccl_fcvindexing.c',
           'CLAUSES/ccl_freqvectors.c'],
 'mech': [('eqn_list_rec_subsume and pre-tests', 'CLAUSES/ccl_subsumption.c'),
          ('Condense', 'CLAUSES/ccl_condensation.c'),
          ('ClauseIsTautologyReal', 'CLAUSES/ccl_tautologies.c'),
          ('FVIndex*', 'CLAUSES/ccl_fcvindexing.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; numeric feature values are compared structurally, not computed.'}

SCOPE = ['CLAUSES/ccl_subsumption.c',
 'CLAUSES/ccl_condensation.c',
 'CLAUSES/ccl_context_sr.c',
 'CLAUSES/ccl_tautologies.c',
 'CLAUSES/ccl_fcvindexing.c',
 'CLAUSES/ccl_freqvectors.c',
 'CLAUSES/ccl_g_lithash.c',
 'CLAUSES/ccl_unit_simplify.c']


def check(k):
    k.contracts()
