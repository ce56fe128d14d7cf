"""Demodulator retrieval, the decision to rewrite, the rewrite-link cache and unit simplification."""
from engine import *

META = {'title': 'Rewriting and unit simplification replace only by smaller, justified instances',
 'statement': 'A term is rewritten only with a processed unit equation whose side matches the term, only towards the smaller side under the ordering '
              '(checked on the instance when the equation is not orientable), never at a position or with a restriction that would make the step '
              'more general than the inference system allows; irreducibility marks and rewrite links are only trusted while they are valid for the '
              'demodulators used, and results are re-examined until in normal form. Literals are cut only by units that really match.',
 'over': ['inputs', 'histories'],
 'quant': 'for every term, demodulator set and history of earlier normal-form computations',
 'why': 'The tests are 19 whole problems with the default strategy; stale normal-form dates and unordered instances are history dependent.',
 'files': ['CLAUSES/ccl_rewrite.c', 'CLAUSES/ccl_pdtrees.c', 'CLAUSES/ccl_unit_simplify.c'],
 'mech': [('term_li_normalform, indexed_find_demodulator, rewrite links', 'CLAUSES/ccl_rewrite.c'),
          ('PDTreeFindNextDemodulator and its constraints', 'CLAUSES/ccl_pdtrees.c'),
          ('ClauseUnitSimplifyTest', 'CLAUSES/ccl_unit_simplify.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; the ordering itself is covered by P12.'}

SCOPE = ['CLAUSES/ccl_rewrite.c', 'CLAUSES/ccl_pdtrees.c', 'CLAUSES/ccl_unit_simplify.c', 'TERMS/cte_replace.c']


def check(k):
    k.contracts()
