"""Knowledge base maintenance and term space maps."""
from engine import *

META = {'title': 'Learning tools store, index and classify examples without losing any',
 'statement': 'Knowledge bases are created, extended and reduced by exactly the named problems; patterns are computed with consistent symbol '
              'renamings, term space maps partition all their examples, classification follows the stored index functions, and annotations are '
              'combined and written back in the documented format; partial writes or missing files are reported.',
 'over': ['inputs', 'fault_sequences'],
 'quant': 'for every knowledge base and example set',
 'why': 'The learning tools are not exercised by the tests.',
 'files': ['LEARN/cle_patterns.c',
           'LEARN/cle_tsm.c',
           'LEARN/cle_annoterms.c',
           'LEARN/cle_annotations.c',
           'LEARN/cle_kbinsert.c',
           'PROVER/ekb_insert.c'],
 'mech': [('PatternTermCompute', 'LEARN/cle_patterns.c'),
          ('TSMCreate, TSMPartitionSet', 'LEARN/cle_tsm.c'),
          ('KBAxiomsInsert', 'LEARN/cle_kbinsert.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; numeric evaluations are not computed.'}

SCOPE = ['LEARN/cle_annotations.c',
 'LEARN/cle_annoterms.c',
 'LEARN/cle_classification.c',
 'LEARN/cle_clauseenc.c',
 'LEARN/cle_examplerep.c',
 'LEARN/cle_flatannoterms.c',
 'LEARN/cle_indexfunctions.c',
 'LEARN/cle_kbdesc.c',
 'LEARN/cle_kbinsert.c',
 'LEARN/cle_numfeatures.c',
 'LEARN/cle_patterns.c',
 'LEARN/cle_termtops.c',
 'LEARN/cle_tsm.c',
 'LEARN/cle_tsmio.c',
 'PROVER/ekb_create.c .',
 'PROVER/ekb_delete.c .',
 'PROVER/ekb_ginsert.c .',
 'PROVER/ekb_insert.c .',
 'PROVER/direct_examples.c .']


def check(k):
    k.contracts()
