"""All selection functions and the marking of maximal literals."""
from engine import *

META = {'title': 'Literal selection selects only admissible literals and leaves others inheritable',
 'statement': 'A literal selection function is only applied where selection is allowed, selects at least the literals its definition names and, '
              'whenever it selects at all, at least one negative literal; literals not selected lose any stale selection mark; when nothing is '
              'selected the maximality marks of the clause are computed; evaluation of candidates reads the literal it is about to mark.',
 'over': ['inputs'],
 'quant': 'for every clause and every selection function',
 'why': 'The tests are 19 whole problems with the default strategy; few selection functions are used.',
 'files': ['HEURISTICS/che_litselection.c', 'CLAUSES/ccl_clauses.c', 'CLAUSES/ccl_eqnlist.c'],
 'mech': [('Select* functions', 'HEURISTICS/che_litselection.c'),
          ('DoLiteralSelection, ClauseCondMarkMaximalTerms', 'HEURISTICS/che_litselection.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; the quality of the selection is not a correctness property.'}

SCOPE = ['HEURISTICS/che_litselection.c', 'CLAUSES/ccl_eqnlist.c Maximal|Select|Prop', 'CLAUSES/ccl_clauses.c Maximal|Select|Inference']


def check(k):
    k.contracts()
