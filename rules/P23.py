"""Evaluation, queues and the choice of the given clause."""
from engine import *

META = {'title': 'Clause evaluation and selection follow the heuristic and starve no clause',
 'statement': 'Every unprocessed clause is evaluated by all evaluation functions of the heuristic and entered into all their queues; selection takes '
              'the best clause of the queue whose turn it is according to the configured weights, priorities come before weights, ties are broken by '
              'age, removal takes the clause out of all queues, and re-evaluation covers every clause.',
 'over': ['inputs', 'histories'],
 'quant': 'for every heuristic and every sequence of insertions, selections and removals',
 'why': 'The tests are 19 whole problems with the default strategy; an unfair selection shows only in long searches.',
 'files': ['HEURISTICS/che_hcb.c',
           'CLAUSES/ccl_neweval.c',
           'HEURISTICS/che_wfcb.c',
           'HEURISTICS/che_prio_funs.c',
           'CLAUSES/ccl_clausesets.c',
           'HEURISTICS/che_clauseweight.c'],
 'mech': [('HCBClauseEvaluate, HCBStandardClauseSelect', 'HEURISTICS/che_hcb.c'),
          ('EvalTree*, EvalCompare', 'CLAUSES/ccl_neweval.c'),
          ('priority functions', 'HEURISTICS/che_prio_funs.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; numeric weights are not computed.'}

SCOPE = ['HEURISTICS/che_hcb.c',
 'CLAUSES/ccl_neweval.c',
 'HEURISTICS/che_wfcb.c',
 'HEURISTICS/che_prio_funs.c',
 'HEURISTICS/che_fifo.c',
 'HEURISTICS/che_lifo.c',
 'HEURISTICS/che_random.c',
 'CLAUSES/ccl_clausesets.c Eval|eval|FindBest|FindFreeEval|Insert|Extract|Delete']


def check(k):
    k.contracts()
