"""The term store, the functions that build terms, and the collector."""
from engine import *

META = {'title': 'Terms are shared maximally and live terms survive garbage collection',
 'statement': 'A term bank holds at most one cell for each term: insertion, instantiation, replacement and normalisation go through the store with '
              'all arguments shared first and cell properties (weight, groundness, variable counts, types, Boolean and higher-order flags) computed '
              'for the top cell; garbage collection marks every root of the proof state, frees exactly the unmarked cells, and cells owned elsewhere '
              'are never freed or modified.',
 'over': ['inputs', 'histories'],
 'quant': 'for every sequence of insertions, rewrites and collections',
 'why': 'The tests are 19 whole problems with the default strategy; garbage collection hardly runs on short problems.',
 'files': ['TERMS/cte_termbanks.c',
           'TERMS/cte_termcellstore.c',
           'TERMS/cte_termtrees.c',
           'TERMS/cte_garbage_coll.c',
           'CLAUSES/ccl_garbage_coll.c',
           'TERMS/cte_termfunc.c'],
 'mech': [('TBTermTopInsert, TBInsert*, TBGCMark/Sweep', 'TERMS/cte_termbanks.c'),
          ('TermCellStoreInsert, splay trees', 'TERMS/cte_termcellstore.c'),
          ('GCCollect', 'TERMS/cte_garbage_coll.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; heap shape invariants of the trees are assumed.'}

SCOPE = ['TERMS/cte_termbanks.c',
 'TERMS/cte_termcellstore.c',
 'TERMS/cte_termtrees.c',
 'TERMS/cte_garbage_coll.c',
 'CLAUSES/ccl_garbage_coll.c',
 'TERMS/cte_termfunc.c',
 'TERMS/cte_termtypes.c',
 'TERMS/cte_termtypes.h',
 'TERMS/cte_termvars.c',
 'TERMS/cte_varhash.c',
 'TERMS/cte_varsets.c',
 'TERMS/cte_termbanks.h']


def check(k):
    k.contracts()
