"""Option parsing and the mapping from options to parameters."""
from engine import *

META = {'title': 'Every command line option has exactly its documented effect or is rejected',
 'statement': 'Each option of the programs sets the parameter it documents to the given (or default) argument, arguments are parsed completely and '
              'range-checked, unknown options and malformed or missing arguments stop the program with a usage error, non-option arguments are kept '
              'in order, and parameters that were not set keep their defaults.',
 'over': ['inputs'],
 'quant': 'for every command line',
 'why': 'Tests use one option only.',
 'files': ['PROVER/eprover.c', 'INOUT/cio_commandline.c', 'PROVER/e_axfilter.c', 'PROVER/eground.c', 'PROVER/e_ltb_runner.c', 'PROVER/checkproof.c'],
 'mech': [('process_options and the option tables', 'PROVER/eprover.c'), ('CLStateGetOpt, CLStateGetIntArg*', 'INOUT/cio_commandline.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; each option case is one path of process_options; the effect of parameters is covered by other '
         'properties.'}

SCOPE = ['INOUT/cio_commandline.c',
 'PROVER/eprover.c process_options',
 'PROVER/e_axfilter.c process_options',
 'PROVER/eground.c process_options',
 'PROVER/e_ltb_runner.c process_options',
 'PROVER/checkproof.c process_options',
 'PROVER/edpll.c process_options',
 'PROVER/enormalizer.c process_options',
 'PROVER/e_client.c process_options',
 'PROVER/e_server.c process_options',
 'PROVER/e_deduction_server.c process_options',
 'PROVER/e_stratpar.c process_options',
 'PROVER/epclextract.c process_options',
 'PROVER/epclanalyse.c process_options',
 'PROVER/epcllemma.c process_options',
 'PROVER/ekb_create.c process_options',
 'PROVER/ekb_delete.c process_options',
 'PROVER/ekb_ginsert.c process_options',
 'PROVER/ekb_insert.c process_options',
 'PROVER/direct_examples.c process_options',
 'PROVER/classify_problem.c process_options',
 'PROVER/epatternize.c process_options']


def check(k):
    k.contracts()
