"""Axiom selection and the statistics it is based on."""
from engine import *

META = {'title': 'Relevance filters keep the conjecture and select by the configured criteria only',
 'statement': 'Axiom selection (SInE and variants, threshold filter, relevance distance, LTB batch selection) always keeps conjectures and '
              'hypotheses it was told to use as seeds, adds an axiom exactly when its generality measure passes the configured limits relative to a '
              'symbol already reached, counts symbol occurrences consistently when formulas are added and removed, honours the configured limits on '
              'rounds and set size, and never modifies the formulas it selects from.',
 'over': ['inputs'],
 'quant': 'for every axiom set, conjecture and filter specification',
 'why': 'The tests are 19 whole problems with the default strategy; small problems are not filtered at all.',
 'files': ['CLAUSES/ccl_sine.c', 'CONTROL/cco_sine.c', 'HEURISTICS/che_axfilter.c', 'CLAUSES/ccl_f_generality.c', 'CLAUSES/ccl_relevance.c'],
 'mech': [('SelectAxioms, PDRelBuild, CLPListInitDRel', 'CLAUSES/ccl_sine.c'),
          ('StructFODistrib*, GenDistrib*', 'CLAUSES/ccl_f_generality.c'),
          ('ProofStateSinE', 'CONTROL/cco_sine.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; quality of the selection is not a correctness property.'}

SCOPE = ['CLAUSES/ccl_sine.c',
 'CONTROL/cco_sine.c',
 'HEURISTICS/che_axfilter.c',
 'CLAUSES/ccl_f_generality.c',
 'CLAUSES/ccl_relevance.c',
 'CLAUSES/ccl_axiomsorter.c']


def check(k):
    k.contracts()
