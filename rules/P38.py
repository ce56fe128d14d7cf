"""All clause weight functions."""
from engine import *

META = {'title': 'Weight functions evaluate each clause from its own literals and parameters',
 'statement': 'Each clause weight function reads the parameters it was created with, initialises its private data on first use and before reading '
              'it, prepares literal and maximality information it depends on, visits all literals of the clause, applies the multipliers to the '
              'literals they are meant for, and returns an evaluation that does not depend on stale data of another clause.',
 'over': ['inputs', 'histories'],
 'quant': 'for every clause, heuristic and order of evaluations',
 'why': 'The tests are 19 whole problems with the default strategy; they use few weight functions.',
 'files': ['HEURISTICS/che_clauseweight.c',
           'HEURISTICS/che_refinedweight.c',
           'HEURISTICS/che_funweights.c',
           'HEURISTICS/che_varweights.c',
           'HEURISTICS/che_termweight.c',
           'HEURISTICS/che_dagweight.c'],
 'mech': [('*WeightCompute, *WeightInit, *WeightParse', 'HEURISTICS/che_refinedweight.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; numeric results are not computed.'}

SCOPE = ['HEURISTICS/che_clauseweight.c',
 'HEURISTICS/che_dagweight.c',
 'HEURISTICS/che_diversityweight.c',
 'HEURISTICS/che_funweights.c',
 'HEURISTICS/che_gdweight.c',
 'HEURISTICS/che_learning.c',
 'HEURISTICS/che_levweight.c',
 'HEURISTICS/che_orientweight.c',
 'HEURISTICS/che_prefixweight.c',
 'HEURISTICS/che_refinedweight.c',
 'HEURISTICS/che_simweight.c',
 'HEURISTICS/che_strucweight.c',
 'HEURISTICS/che_termweight.c',
 'HEURISTICS/che_termweights.c',
 'HEURISTICS/che_tfidfweight.c',
 'HEURISTICS/che_treeweight.c',
 'HEURISTICS/che_varweights.c']


def check(k):
    k.contracts()
