"""Enumeration of ground instances and propositional search."""
from engine import *

META = {'title': 'Grounding enumerates every admissible ground instance and says when it does not',
 'statement': 'The grounding tools instantiate each clause with all combinations of constants its constraints and sorts admit, keep signs and '
              'literals, drop only tautologies and duplicates, and report any limit that makes the result incomplete; the propositional prover '
              'assigns, propagates and backtracks consistently and reports satisfiable or unsatisfiable accordingly.',
 'over': ['inputs'],
 'quant': 'for every clause set and every limit',
 'why': 'These tools are not exercised by the tests.',
 'files': ['CLAUSES/ccl_grounding.c',
           'CLAUSES/ccl_groundconstr.c',
           'PROVER/eground.c',
           'PROPOSITIONAL/cpr_dpll.c',
           'PROPOSITIONAL/cpr_dpllformula.c',
           'PROPOSITIONAL/cpr_propclauses.c'],
 'mech': [('ClauseCreateGroundInstances, GroundSet', 'CLAUSES/ccl_grounding.c'),
          ('LitPosGetConstraintState', 'CLAUSES/ccl_groundconstr.c'),
          ('DPLL', 'PROPOSITIONAL/cpr_dpll.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; completeness of the enumeration is decided structurally (loops and guards).'}

SCOPE = ['CLAUSES/ccl_grounding.c',
 'CLAUSES/ccl_groundconstr.c',
 'PROVER/eground.c .',
 'PROVER/edpll.c .',
 'PROPOSITIONAL/cpr_dpll.c',
 'PROPOSITIONAL/cpr_dpllformula.c',
 'PROPOSITIONAL/cpr_propclauses.c',
 'PROPOSITIONAL/cpr_propsig.c',
 'PROPOSITIONAL/cpr_varset.c',
 'CLAUSES/ccl_propclauses.c']


def check(k):
    k.contracts()
