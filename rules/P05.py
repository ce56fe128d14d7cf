"""The extraction, ordering and printing of derivations."""
from engine import *

META = {'title': 'A printed proof contains every step it depends on, once and after its premises',
 'statement': 'The proof object extracted for a set of root clauses contains all ancestors reachable through recorded derivations, lists each step '
              'once and after the steps it refers to, and prints for each step the identifiers, roles, inference names and parents that were '
              'recorded, in both PCL and TSTP syntax. Extraction leaves the clauses of the proof state unchanged.',
 'over': ['inputs', 'histories'],
 'quant': 'for every derivation graph and both output formats',
 'why': 'The tests are 19 whole problems with the default strategy; none checks a proof object.',
 'files': ['CLAUSES/ccl_derivation.c', 'CLAUSES/ccl_inferencedoc.c', 'CLAUSES/ccl_clauseinfo.c'],
 'mech': [('DerivationExtract / DerivationTopoSort / DerivationPrint', 'CLAUSES/ccl_derivation.c'),
          ('Doc* inference printing', 'CLAUSES/ccl_inferencedoc.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; well-formedness of the text against the TPTP grammar is not decided.'}

SCOPE = ['CLAUSES/ccl_derivation.c .',
 'CLAUSES/ccl_inferencedoc.c .',
 'CLAUSES/ccl_clauseinfo.c .',
 'CLAUSES/ccl_clauses.c Print',
 'CLAUSES/ccl_formula_wrapper.c Print']


def check(k):
    k.contracts()
