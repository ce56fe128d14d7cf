"""Creation, backtracking and deletion of substitutions in every function that uses them."""
from engine import *

META = {'title': 'Variable bindings made during an inference or simplification attempt are undone',
 'statement': 'Every operation that binds variables through a substitution (unification, matching, normalisation of variables, indexing retrieval, '
              'enumeration of unifiers) restores the previous bindings on every exit of the operation that started it, successful or not, and does '
              'so only after results were built from instantiated terms. No inference, retrieval or simplification leaves a variable bound for the '
              'next one.',
 'over': ['inputs', 'histories'],
 'quant': 'for every exit path of every function that binds variables',
 'why': 'A binding left behind only matters for a later, unrelated inference that shares the variable; the tests are 19 whole problems with the '
        'default strategy; ',
 'files': ['TERMS/cte_subst.c', 'CLAUSES/ccl_paramod.c', 'CLAUSES/ccl_subsumption.c', 'CLAUSES/ccl_pdtrees.c', 'CLAUSES/ccl_rewrite.c'],
 'mech': [('SubstBacktrack*, SubstDelete and all their callers', 'TERMS/cte_subst.c'),
          ('SubstNormTerm and copying of instantiated literals', 'CLAUSES/ccl_eqn.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; aliasing between two live substitutions is not tracked.'}

SCOPE = ['TERMS/cte_subst.c',
 'callers SubstBacktrackToPos SubstBacktrack SubstDelete SubstBacktrackSingle SubstSkolemizeTerm SubstAllocReal SubstDeleteSkolem SubstAddBinding '
 'SubstNormEqnList NormSubstEqnList NormSubstTerm SubstAlloc SubstComputeMgu SubstComputeMatch SubstMguComplete SubstMatchComplete UnifyLiterals '
 'EqnUnify EqnUnifyDirected LiteralUnifyOneWay LiteralCompletelyUnifyOneWay PDTreeSearchExit PDTreeSearchInit EqnSubsume EqnSubsumeDirected '
 'SubstMguPossiblyPartial SubstMatchPossiblyPartial VarBankSetVCountsToUsed VarBankResetVCounts ClauseNormalizeVars']


def check(k):
    k.contracts()
