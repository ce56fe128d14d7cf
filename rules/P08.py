"""The main loop, contraction against both sides, and the maintenance of the processed sets and indices."""
from engine import *

META = {'title': 'The given-clause loop keeps clause sets, indices and watchlist in step',
 'statement': 'Each given clause is simplified, tested for redundancy and used for all inferences with the processed clauses before it counts as '
              'processed; a clause is inserted into every enabled index when it becomes processed and removed from all of them when it leaves; '
              'clauses that are simplified or subsumed later are taken out of the processed sets, re-queued or archived, never dropped silently; an '
              'empty clause found anywhere is reported; orphans are deleted only when a parent is gone.',
 'over': ['inputs', 'histories'],
 'quant': 'for every sequence of generated clauses and every strategy',
 'why': 'The tests are 19 whole problems with the default strategy; lost clauses or stale index entries show only as incompleteness or as wrong '
        'inferences in long searches.',
 'files': ['CONTROL/cco_proofproc.c',
           'CONTROL/cco_simplification.c',
           'CONTROL/cco_forward_contraction.c',
           'CLAUSES/ccl_global_indices.c',
           'CLAUSES/ccl_proofstate.c'],
 'mech': [('ProcessClause, Saturate', 'CONTROL/cco_proofproc.c'),
          ('ForwardContractClause', 'CONTROL/cco_forward_contraction.c'),
          ('RemoveRewritableClauses etc.', 'CONTROL/cco_simplification.c'),
          ('GlobalIndices*', 'CLAUSES/ccl_global_indices.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; termination and fairness of the search are not decided here.'}

SCOPE = ['CONTROL/cco_proofproc.c',
 'CONTROL/cco_simplification.c',
 'CONTROL/cco_forward_contraction.c',
 'CLAUSES/ccl_global_indices.c',
 'CLAUSES/ccl_proofstate.c',
 'CONTROL/cco_interpreted.c']


def check(k):
    k.contracts()
