"""Grounding, encoding, pure literal removal and the use of the solver's answer."""
from engine import *

META = {'title': 'A propositional refutation is derived only from grounded clauses of the search',
 'statement': 'The SAT export instantiates every exported clause with the chosen ground substitution, maps equal ground literals to the same '
              'propositional variable and different ones to different variables, keeps signs, records which clause each propositional clause came '
              'from, removes pure literals only when they really are pure, and reports unsatisfiability only when the solver says so; the clauses '
              'named as premises are those of the core found. Solver state is reset between calls.',
 'over': ['inputs', 'histories'],
 'quant': 'for every set of clauses and every grounding strategy',
 'why': 'The tests are 19 whole problems with the default strategy; SAT checking is off in the default strategy.',
 'files': ['CLAUSES/ccl_satinterface.c', 'CLAUSES/ccl_propclauses.c'],
 'mech': [('SatClauseSet*', 'CLAUSES/ccl_satinterface.c'), ('pseudo-grounding substitutions', 'CLAUSES/ccl_satinterface.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; picosat is trusted.'}

SCOPE = ['CLAUSES/ccl_satinterface.c', 'CLAUSES/ccl_propclauses.c', 'CONTROL/cco_proofproc.c sat|Sat|SAT']


def check(k):
    k.contracts()
