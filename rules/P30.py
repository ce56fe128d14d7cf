"""Every operation of the containers."""
from engine import *

META = {'title': 'Basic containers behave as sets, maps, stacks, queues, heaps and strings',
 'statement': 'Splay trees, maps, stacks, queues, heaps, dynamic arrays, lists and strings return what was stored last under a key, report '
              'duplicates and absence correctly, keep their order and size fields consistent, grow before they overflow, traverse every element '
              'exactly once, and release what they own exactly once.',
 'over': ['inputs', 'histories'],
 'quant': 'for every sequence of operations',
 'why': 'The tests are 19 whole problems with the default strategy; particular growth and deletion patterns do not occur.',
 'files': ['BASICS/clb_ptrees.c',
           'BASICS/clb_numtrees.c',
           'BASICS/clb_stringtrees.c',
           'BASICS/clb_intmap.c',
           'BASICS/clb_pstacks.c',
           'BASICS/clb_pqueue.c',
           'BASICS/clb_min_heap.c',
           'BASICS/clb_pdarrays.c',
           'BASICS/clb_dstrings.c'],
 'mech': [('splay trees', 'BASICS/clb_ptrees.c'),
          ('IntMap', 'BASICS/clb_intmap.c'),
          ('stacks and queues', 'BASICS/clb_pstacks.h'),
          ('dynamic strings', 'BASICS/clb_dstrings.c'),
          ('MinHeap', 'BASICS/clb_min_heap.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; balance and ordering invariants of whole trees are shape properties and only checked step by step.'}

SCOPE = ['BASICS/clb_ddarrays.c .',
 'BASICS/clb_dstacks.c .',
 'BASICS/clb_dstrings.c .',
 'BASICS/clb_fixdarrays.c .',
 'BASICS/clb_floattrees.c .',
 'BASICS/clb_intmap.c .',
 'BASICS/clb_min_heap.c .',
 'BASICS/clb_numtrees.c .',
 'BASICS/clb_numxtrees.c .',
 'BASICS/clb_objmaps.c .',
 'BASICS/clb_objtrees.c .',
 'BASICS/clb_pdarrays.c .',
 'BASICS/clb_pdrangearrays.c .',
 'BASICS/clb_permastrings.c .',
 'BASICS/clb_plist.c .',
 'BASICS/clb_plocalstacks.c .',
 'BASICS/clb_pqueue.c .',
 'BASICS/clb_pstacks.c .',
 'BASICS/clb_ptrees.c .',
 'BASICS/clb_quadtrees.c .',
 'BASICS/clb_regmem.c .',
 'BASICS/clb_simple_stuff.c .',
 'BASICS/clb_stringtrees.c .',
 'BASICS/clb_pstacks.h .',
 'BASICS/clb_pqueue.h .',
 'BASICS/clb_ptrees.h .',
 'BASICS/clb_intmap.h .',
 'BASICS/clb_pdarrays.h .',
 'BASICS/clb_pdrangearrays.h .']


def check(k):
    k.contracts()
