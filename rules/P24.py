"""Insertion, deletion and retrieval of all indices."""
from engine import *

META = {'title': 'Index retrieval returns every candidate and only entries still present',
 'statement': 'Fingerprint, overlap, subterm, extensionality, perfect-discrimination and feature-vector indices receive every eligible term or '
              'literal of an inserted clause under the key computed for it, drop exactly the same entries on removal, and retrieval follows every '
              'branch compatible with the query, so that no stored candidate that unifies, matches or generalises is missed.',
 'over': ['inputs', 'histories'],
 'quant': 'for every sequence of insertions and removals and every query',
 'why': 'The tests are 19 whole problems with the default strategy; a missed candidate only shows as incompleteness.',
 'files': ['TERMS/cte_fp_index.c',
           'TERMS/cte_idx_fp.c',
           'CLAUSES/ccl_overlap_index.c',
           'CLAUSES/ccl_subterm_index.c',
           'CLAUSES/ccl_subterm_tree.c',
           'CLAUSES/ccl_ext_index.c',
           'CLAUSES/ccl_clausepos_tree.c',
           'CLAUSES/ccl_pdtrees.c'],
 'mech': [('FPIndexInsert/Delete/FindUnifiable/FindMatchable', 'TERMS/cte_fp_index.c'),
          ('fingerprint functions', 'TERMS/cte_idx_fp.c'),
          ('OverlapIndexInsert*Clause / Delete', 'CLAUSES/ccl_overlap_index.c'),
          ('PDTreeInsert / PDTreeDelete', 'CLAUSES/ccl_pdtrees.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; the numeric values of fingerprints are checked through the functions that compute and compare them.'}

SCOPE = ['TERMS/cte_fp_index.c',
 'TERMS/cte_idx_fp.c',
 'CLAUSES/ccl_overlap_index.c',
 'CLAUSES/ccl_subterm_index.c',
 'CLAUSES/ccl_subterm_tree.c',
 'CLAUSES/ccl_ext_index.c',
 'CLAUSES/ccl_clausepos_tree.c',
 'CLAUSES/ccl_pdtrees.c',
 'CLAUSES/ccl_findex.c',
 'CLAUSES/ccl_global_indices.c',
 'CLAUSES/ccl_fcvindexing.c']


def check(k):
    k.contracts()
