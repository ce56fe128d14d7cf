"""Feature extraction for classification."""
from engine import *

META = {'title': 'Problem classification and clause features are computed from the whole problem',
 'statement': 'The features used to classify problems and to choose strategies (counts of axioms, goals, unit, Horn, equational, ground and '
              'higher-order clauses, symbols, arities, depths) visit every clause, literal and subterm of the sets given, classify each by the '
              'documented test, and class boundaries are applied as configured.',
 'over': ['inputs'],
 'quant': 'for every clause and formula set',
 'why': 'The tests are 19 whole problems with the default strategy; a wrong feature silently selects another strategy.',
 'files': ['HEURISTICS/che_clausesetfeatures.c',
           'HEURISTICS/che_clausefeatures.c',
           'HEURISTICS/che_rawspecfeatures.c',
           'HEURISTICS/che_specsigfeatures.c',
           'PROVER/classify_problem.c'],
 'mech': [('SpecFeaturesCompute', 'HEURISTICS/che_clausesetfeatures.c'), ('RawSpecFeaturesCompute', 'HEURISTICS/che_rawspecfeatures.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; counting is checked as guarded increments inside complete traversals.'}

SCOPE = ['HEURISTICS/che_clausesetfeatures.c',
 'HEURISTICS/che_clausefeatures.c',
 'HEURISTICS/che_rawspecfeatures.c',
 'HEURISTICS/che_specsigfeatures.c',
 'PROVER/classify_problem.c',
 'HEURISTICS/che_axiomscan.c']


def check(k):
    k.contracts()
