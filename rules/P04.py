"""Every site that records a derivation step, and the functions that write and read derivation stacks."""
from engine import *

META = {'title': 'Every inferred clause and formula records the step and parents that produced it',
 'statement': 'Whenever an inference, simplification or preprocessing step creates or changes a clause or formula, it appends a derivation step '
              'naming the operation actually performed and the premises actually used (and the demodulators, definitions or split symbols involved) '
              'to that clause or formula, and a clause taken over from another one keeps or refers to its history. Recorded derivations are read '
              'back with the same operation codes and argument layout with which they were written.',
 'over': ['inputs', 'histories'],
 'quant': 'for every inference and every option setting that enables derivation recording',
 'why': 'The tests are 19 whole problems with the default strategy; no test looks at the recorded derivation; a step with a wrong or missing parent '
        'still leads to the same verdict.',
 'files': ['CLAUSES/ccl_derivation.c', 'CLAUSES/ccl_paramod.c', 'CLAUSES/ccl_rewrite.c', 'CONTROL/cco_paramodulation.c', 'CLAUSES/ccl_tcnf.c'],
 'mech': [('ClausePushDerivation / WFormulaPushDerivation and their call sites', 'CLAUSES/ccl_derivation.c'),
          ('derivation stack layout', 'CLAUSES/ccl_derivation.h')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; that the recorded premises logically entail the conclusion is not decided.'}

SCOPE = ['callers ClausePushDerivation WFormulaPushDerivation ClausePushACResDerivation ClauseIsEvalGC ClausePushFormulaDerivation DerivStackExtractParents',
 'CLAUSES/ccl_derivation.c ClausePush|WFormulaPush|DerivStack|Derived|ClauseDerivFind|WFormulaDeriv|IsEvalGC|IsDummy|UpdateStatistics']


def check(k):
    k.contracts()
