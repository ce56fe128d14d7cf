"""Splitting of clauses and bookkeeping of definitions."""
from engine import *

META = {'title': 'Clause splitting uses fresh or matching definitions and keeps all parts',
 'statement': 'A clause is split only into parts without shared variables, with every literal in exactly one part; each part is guarded by a '
              'propositional symbol that is fresh or was defined for a variant of that part, with the right polarity on each side, and definitions, '
              'their cache and the derivations of the parts refer to each other correctly.',
 'over': ['inputs', 'histories'],
 'quant': 'for every clause and every history of earlier splits',
 'why': 'The tests are 19 whole problems with the default strategy; splitting is off by default.',
 'files': ['CLAUSES/ccl_splitting.c', 'CONTROL/cco_clausesplitting.c', 'CLAUSES/ccl_def_handling.c'],
 'mech': [('clause_split_general, initialize_lit_table, build_part', 'CLAUSES/ccl_splitting.c'),
          ('DefStore, GetClauseDefinition', 'CLAUSES/ccl_def_handling.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; conservativity of definitions is assumed.'}

SCOPE = ['CLAUSES/ccl_splitting.c', 'CONTROL/cco_clausesplitting.c', 'CLAUSES/ccl_def_handling.c']


def check(k):
    k.contracts()
