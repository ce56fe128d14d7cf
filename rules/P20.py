"""Parsing, storing, printing and selecting strategies."""
from engine import *

META = {'title': 'A strategy specification is parsed, stored and used as given',
 'statement': 'Heuristic, weight function, priority function, ordering and literal selection names and their parameters are looked up by exact name, '
              'parsed into the corresponding parameter fields, printed in a form that is read back to the same values, copied completely into worker '
              'processes and search control, and unknown names are errors. Automatic modes choose only among the defined strategies and copy every '
              'parameter of the chosen one.',
 'over': ['inputs'],
 'quant': 'for every strategy specification',
 'why': 'The tests are 19 whole problems with the default strategy; one automatic mode is used.',
 'files': ['HEURISTICS/che_heuristics.c',
           'HEURISTICS/che_hcbadmin.c',
           'HEURISTICS/che_wfcbadmin.c',
           'HEURISTICS/che_to_params.c',
           'HEURISTICS/che_proofcontrol.c',
           'HEURISTICS/che_new_autoschedule.c'],
 'mech': [('HeuristicParmsParseInto, OrderParmsParseInto', 'HEURISTICS/che_hcb.c'),
          ('WFCBAdmin / HCBAdmin', 'HEURISTICS/che_hcbadmin.c'),
          ('ProofControlInit', 'HEURISTICS/che_proofcontrol.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; the generated schedule tables are data and only checked for being looked up correctly.'}

SCOPE = ['HEURISTICS/che_heuristics.c',
 'HEURISTICS/che_hcbadmin.c .',
 'HEURISTICS/che_wfcbadmin.c .',
 'HEURISTICS/che_to_params.c .',
 'HEURISTICS/che_proofcontrol.c',
 'HEURISTICS/che_new_autoschedule.c',
 'HEURISTICS/che_hcb.c Parms|HCB',
 'HEURISTICS/che_prio_funs.c Get|Parse|Name',
 'CONTROL/cco_scheduling.c',
 'HEURISTICS/che_to_autoselect.c',
 'HEURISTICS/che_litselection.c Get|Name']


def check(k):
    k.contracts()
