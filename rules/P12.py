"""The comparison functions of all orderings and the tables they consult."""
from engine import *

META = {'title': 'Term ordering comparisons agree with the KBO, LPO and ordering definitions',
 'statement': 'Comparing two terms returns greater, less, equal or incomparable exactly according to the selected ordering: variable conditions, '
              'weights, precedence, status and lexicographic descent are applied in the prescribed order, the fast linear and the cached variants '
              'agree with the plain ones, comparisons respect the requested dereferencing of variables, and the answer for swapped arguments is the '
              'inverse. Precedence and weight tables are completed consistently when symbols are added.',
 'over': ['inputs'],
 'quant': 'for every pair of terms, every precedence and weight assignment',
 'why': 'The tests are 19 whole problems with the default strategy; wrong comparisons show only as incompleteness or non-termination on particular '
        'term pairs.',
 'files': ['ORDERINGS/cto_kbo.c',
           'ORDERINGS/cto_kbolin.c',
           'ORDERINGS/cto_lpo.c',
           'ORDERINGS/cto_ocb.c',
           'ORDERINGS/cto_orderings.c',
           'ORDERINGS/cto_cmpcache.c'],
 'mech': [('KBOCompare, KBO6Compare', 'ORDERINGS/cto_kbolin.c'),
          ('LPOCompare, LPO4Compare', 'ORDERINGS/cto_lpo.c'),
          ('OCBFunCompare, precedence', 'ORDERINGS/cto_ocb.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; well-foundedness and totality on ground terms are mathematical facts about the definition and not '
         'decided.'}

SCOPE = ['ORDERINGS/cto_kbo.c',
 'ORDERINGS/cto_kbolin.c',
 'ORDERINGS/cto_lpo.c',
 'ORDERINGS/cto_ocb.c',
 'ORDERINGS/cto_orderings.c',
 'ORDERINGS/cto_cmpcache.c',
 'ORDERINGS/cto_ocb.h',
 'BASICS/clb_partial_orderings.h',
 'BASICS/clb_partial_orderings.c']


def check(k):
    k.contracts()
