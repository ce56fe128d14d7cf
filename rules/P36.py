"""Generation of precedences and weights."""
from engine import *

META = {'title': 'Generated orderings are admissible and cover every symbol',
 'statement': 'Precedence generators order every symbol of the signature by the configured criterion with a total tie break, weight generators give '
              'every symbol a weight that keeps the ordering admissible (positive variable weight and constant weights, at most one unary symbol of '
              'weight zero and then maximal), user-supplied precedences and weights override generated ones, and automatic selection uses the '
              "problem's own features.",
 'over': ['inputs'],
 'quant': 'for every signature and every generation scheme',
 'why': 'The tests are 19 whole problems with the default strategy; few generation schemes are used.',
 'files': ['HEURISTICS/che_to_precgen.c',
           'HEURISTICS/che_to_weightgen.c',
           'HEURISTICS/che_to_autoselect.c',
           'HEURISTICS/che_fcode_featurearrays.c',
           'ORDERINGS/cto_ocb.c'],
 'mech': [('TOGeneratePrecedence', 'HEURISTICS/che_to_precgen.c'),
          ('TOGenerateWeights', 'HEURISTICS/che_to_weightgen.c'),
          ('TOSelectOrdering', 'HEURISTICS/che_to_autoselect.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; numeric weights are only checked for their source and sign tests.'}

SCOPE = ['HEURISTICS/che_to_precgen.c',
 'HEURISTICS/che_to_weightgen.c',
 'HEURISTICS/che_to_autoselect.c',
 'HEURISTICS/che_fcode_featurearrays.c',
 'ORDERINGS/cto_ocb.c',
 'HEURISTICS/che_to_params.c']


def check(k):
    k.contracts()
