"""Lambda-term operations and higher-order inferences."""
from engine import *

META = {'title': 'Higher-order terms are normalised and instantiated without capture',
 'statement': 'Beta and eta normalisation, shifting and instantiation of de Bruijn variables, lambda lifting, bindings for imitation, projection and '
              'identification, and the higher-order inferences (argument congruence, extensionality, primitive enumeration, choice, injectivity, '
              'Leibniz elimination and others) keep types, never capture or leak bound variables, and are applied only to literals and terms of the '
              'required shape.',
 'over': ['inputs'],
 'quant': 'for every higher-order term and clause',
 'why': 'The tests are 19 whole problems with the default strategy; few of them are higher-order.',
 'files': ['TERMS/cte_lambda.c', 'TERMS/cte_ho_bindings.c', 'TERMS/cte_dbvars.c', 'CONTROL/cco_ho_inferences.c', 'TERMS/cte_ho_csu.c'],
 'mech': [('BetaNormalizeDB, LambdaEtaReduceDB, ShiftDB', 'TERMS/cte_lambda.c'),
          ('ComputeNextBinding', 'TERMS/cte_ho_bindings.c'),
          ('ComputeHOInferences', 'CONTROL/cco_ho_inferences.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; confluence of normalisation is assumed.'}

SCOPE = ['TERMS/cte_lambda.c',
 'TERMS/cte_ho_bindings.c',
 'TERMS/cte_dbvars.c',
 'CONTROL/cco_ho_inferences.c',
 'TERMS/cte_ho_csu.c',
 'TERMS/cte_lambda.h',
 'CLAUSES/ccl_ext_index.c']


def check(k):
    k.contracts()
