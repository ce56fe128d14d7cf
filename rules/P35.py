"""Signature, type bank and type checking."""
from engine import *

META = {'title': 'Symbol tables, sorts and types are consistent for every symbol',
 'statement': 'Each function or predicate symbol has one code, one arity and one type; special symbols, Skolem symbols and interpreted symbols carry '
              'their properties; types are shared, type constructors keep their arity, inferred and declared types must agree or an error is raised; '
              'fresh symbols never collide with existing names; type checks are applied to every symbol occurrence, with polymorphic symbols '
              'instantiated consistently.',
 'over': ['inputs', 'histories'],
 'quant': 'for every sequence of declarations and uses',
 'why': 'The tests are 19 whole problems with the default strategy; conflicting declarations do not occur there.',
 'files': ['TERMS/cte_signature.c',
           'TERMS/cte_typebanks.c',
           'TERMS/cte_typecheck.c',
           'TERMS/cte_simpletypes.c',
           'TERMS/cte_functypes.c',
           'TERMS/cte_simplesorts.c'],
 'mech': [('SigInsertId, SigDeclareType, SigGetNewSkolemCode', 'TERMS/cte_signature.c'),
          ('TypeBankInsert*', 'TERMS/cte_typebanks.c'),
          ('TypeCheckConsistent, TypeInferSort', 'TERMS/cte_typecheck.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; no numeric facts are claimed.'}

SCOPE = ['TERMS/cte_signature.c',
 'TERMS/cte_typebanks.c',
 'TERMS/cte_typecheck.c',
 'TERMS/cte_simpletypes.c',
 'TERMS/cte_functypes.c',
 'TERMS/cte_simplesorts.c',
 'TERMS/cte_signature.h',
 'TERMS/cte_simpletypes.h',
 'TERMS/cte_termtypes.c']


def check(k):
    k.contracts()
