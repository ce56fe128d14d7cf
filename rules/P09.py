"""Premise selection, side conditions and construction of the conclusions of all generating inferences."""
from engine import *

META = {'title': 'Generating inferences obey their side conditions and build the right conclusion',
 'statement': 'Superposition, simultaneous superposition, paramodulation, equality resolution, equality factoring, ordered factoring and disequality '
              'decomposition are applied only at literals and positions their calculus allows (maximality, selection, polarity, orientation, no '
              'inference into variables at the excluded positions, instantiated ordering checks), and each conclusion consists of exactly the '
              'remaining instantiated literals of all premises with the replaced literal, with variables renamed apart.',
 'over': ['inputs'],
 'quant': 'for every pair of premises, positions and unifiers',
 'why': 'The tests are 19 whole problems with the default strategy; an inference that drops a literal or violates an ordering condition only shows '
        'on particular clauses.',
 'files': ['CLAUSES/ccl_paramod.c',
           'CONTROL/cco_paramodulation.c',
           'CLAUSES/ccl_eqnresolution.c',
           'CLAUSES/ccl_factor.c',
           'CONTROL/cco_eqnresolving.c',
           'CONTROL/cco_factoring.c'],
 'mech': [('ClauseParamod*, ParamodOrderingCheck', 'CLAUSES/ccl_paramod.c'),
          ('ComputeEqRes, ComputeOrderedFactor, ComputeEqualityFactor', 'CLAUSES/ccl_factor.c'),
          ('variants indexed and non-indexed', 'CONTROL/cco_paramodulation.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; the semantics of orderings and unification are covered by P12 and P06.'}

SCOPE = ['CLAUSES/ccl_paramod.c',
 'CONTROL/cco_paramodulation.c',
 'CLAUSES/ccl_eqnresolution.c',
 'CONTROL/cco_eqnresolving.c',
 'CLAUSES/ccl_factor.c',
 'CONTROL/cco_factoring.c',
 'CLAUSES/ccl_clausepos.c',
 'CLAUSES/ccl_clausecpos.c',
 'CLAUSES/ccl_diseq_decomp.c',
 'CONTROL/cco_diseq_decomp.c',
 'TERMS/cte_termpos.c',
 'TERMS/cte_termcpos.c',
 'TERMS/cte_replace.c',
 'CLAUSES/ccl_clausepos.h',
 'TERMS/cte_termpos.h']


def check(k):
    k.contracts()
