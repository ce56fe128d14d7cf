"""The operations on literals, clauses and sets."""
from engine import *

META = {'title': 'Clause, literal and clause-set operations keep their derived data consistent',
 'statement': 'Operations on literals, literal lists, clauses and clause sets keep counts of positive and negative literals, weights, orientation '
              'and maximality marks, set membership and set sizes in line with the literals and clauses actually present; copying copies all '
              'literals and properties asked for; orientation is changed only with the sides swapped accordingly; comparisons and sorting are '
              'consistent.',
 'over': ['inputs', 'histories'],
 'quant': 'for every sequence of operations on clauses and sets',
 'why': 'The tests are 19 whole problems with the default strategy; derived data that is off by one shows in rare situations only.',
 'files': ['CLAUSES/ccl_clauses.c', 'CLAUSES/ccl_eqn.c', 'CLAUSES/ccl_eqnlist.c', 'CLAUSES/ccl_clausesets.c', 'CLAUSES/ccl_clausefunc.c'],
 'mech': [('ClauseRecomputeLitCounts, ClauseRemoveLiteral, ClauseSetInsert/Extract', 'CLAUSES/ccl_clauses.c'),
          ('EqnOrient, EqnSwapSides', 'CLAUSES/ccl_eqn.c'),
          ('EqnList*', 'CLAUSES/ccl_eqnlist.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; weights are not computed.'}

SCOPE = ['CLAUSES/ccl_clauses.c',
 'CLAUSES/ccl_eqn.c',
 'CLAUSES/ccl_eqnlist.c',
 'CLAUSES/ccl_clausesets.c',
 'CLAUSES/ccl_clausefunc.c',
 'CLAUSES/ccl_eqn.h',
 'CLAUSES/ccl_clauseinfo.c']


def check(k):
    k.contracts()
