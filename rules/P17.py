"""Scanner, token tests and all parsing functions."""
from engine import *

META = {'title': 'Input is read as written, or rejected with an error',
 'statement': 'The scanner and the parsers of terms, literals, clauses, formulas and include directives (LOP, TPTP-2, TSTP/TPTP-3 in CNF, FOF, TFF, '
              'THF) accept exactly the token sequences they test for, build the structure in the order and with the signs, connectives, quantifiers, '
              'names and roles that were read, resolve include names and selections as specified, check arity and type consistency on every use of a '
              'symbol, and stop with an error message for everything else.',
 'over': ['inputs'],
 'quant': 'for every input text in every supported format',
 'why': 'The tests are 19 whole problems with the default strategy; they hold a few well-formed inputs.',
 'files': ['INOUT/cio_scanner.c',
           'INOUT/cio_basicparser.c',
           'TERMS/cte_termbanks.c',
           'CLAUSES/ccl_tformulae.c',
           'CLAUSES/ccl_eqn.c',
           'CLAUSES/ccl_clauses.c',
           'CLAUSES/ccl_formula_wrapper.c'],
 'mech': [('NextToken, CheckInpTok, AcceptInpTok', 'INOUT/cio_scanner.c'),
          ('TBTermParse*', 'TERMS/cte_termbanks.c'),
          ('TFormulaTSTPParse*', 'CLAUSES/ccl_tformulae.c'),
          ('ClauseParse, WFormulaParse, includes', 'CLAUSES/ccl_clauses.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; conformance to the published TPTP grammar beyond the tests made by the code is not decided.'}

SCOPE = ['INOUT/cio_scanner.c',
 'INOUT/cio_basicparser.c',
 'INOUT/cio_streams.c',
 'TERMS/cte_termbanks.c Parse|parse|assert_app|app_term|lambda',
 'CLAUSES/ccl_tformulae.c Parse|parse|assoc|quantif|elem',
 'CLAUSES/ccl_eqn.c Parse|parse|infix',
 'CLAUSES/ccl_eqnlist.c Parse',
 'CLAUSES/ccl_clauses.c Parse|parse|Type',
 'CLAUSES/ccl_formula_wrapper.c Parse|parse|Type|type',
 'CLAUSES/ccl_formulafunc.c Parse|parse|Include',
 'CLAUSES/ccl_clausesets.c Parse|parse',
 'TERMS/cte_termfunc.c Parse|parse',
 'TERMS/cte_typebanks.c Parse|parse',
 'TERMS/cte_signature.c Parse|parse|Arity|Insert',
 'CLAUSES/ccl_formulasets.c Parse',
 'CLAUSES/ccl_inferencedoc.c Parse',
 'CLAUSES/ccl_clauseinfo.c Parse|Source']


def check(k):
    k.contracts()
