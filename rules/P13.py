"""All transformation steps between a parsed formula and its clauses."""
from engine import *

META = {'title': 'Clausification preserves satisfiability and negates exactly the conjectures',
 'statement': 'The conversion of formulas to clauses (simplification, negation normal form, definitions for subformulas, miniscoping, Skolemisation, '
              'distribution, and the treatment of Boolean terms) only applies equivalences with the right polarity: negation flips quantifiers and '
              'connectives, Skolem terms depend on all free and universally bound variables in scope, definitions are introduced with the '
              'implication directions needed, renamed variables are fresh, and conjectures are negated exactly once. No formula of the input is '
              'lost.',
 'over': ['inputs'],
 'quant': 'for every input formula',
 'why': 'The tests are 19 whole problems with the default strategy; they contain few formula shapes; a wrong polarity shows only for particular '
        'nestings.',
 'files': ['CLAUSES/ccl_tcnf.c',
           'CLAUSES/ccl_tformulae.c',
           'CLAUSES/ccl_formulafunc.c',
           'CLAUSES/ccl_formula_wrapper.c',
           'CLAUSES/ccl_formulasets.c'],
 'mech': [('TFormulaSimplify, TFormulaNNF, TFormulaMiniScope, TFormulaSkolemizeOutermost, TFormulaDistributeDisjunctions', 'CLAUSES/ccl_tcnf.c'),
          ('WFormulaConjectureNegate, FormulaSetPreprocConjectures, FormulaSetCNF2', 'CLAUSES/ccl_formulafunc.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; the logical equivalence of composed transformations is not proved.'}

SCOPE = ['CLAUSES/ccl_tcnf.c',
 'CLAUSES/ccl_tformulae.c',
 'CLAUSES/ccl_formulafunc.c',
 'CLAUSES/ccl_formula_wrapper.c',
 'CLAUSES/ccl_formulasets.c',
 'CLAUSES/ccl_def_handling.c']


def check(k):
    k.contracts()
