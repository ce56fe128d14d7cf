"""Limits, handlers, exit paths, temporary files and allocation."""
from engine import *

META = {'title': 'Resource limits, signals and temporary files are handled on every path',
 'statement': 'CPU and memory limits are installed as requested; when a limit is hit or a termination signal arrives the handler only does what is '
              'safe there, records the event, and the program ends with the documented status and exit code after removing its temporary files and '
              'terminating children; temporary files are registered when created and removed exactly once; allocation failure is reported, never '
              'ignored.',
 'over': ['fault_sequences', 'inputs', 'histories'],
 'quant': 'for every point in time at which a limit or a signal hits',
 'why': 'Limits and signals do not occur in the tests.',
 'files': ['INOUT/cio_signals.c',
           'INOUT/cio_tempfile.c',
           'BASICS/clb_os_wrapper.c',
           'BASICS/clb_error.c',
           'BASICS/clb_memory.c',
           'BASICS/clb_newmem.c',
           'PROVER/eprover.c'],
 'mech': [('ESignalSetup, ESignalHandler, TimeIsUp', 'INOUT/cio_signals.c'),
          ('TempFile*', 'INOUT/cio_tempfile.c'),
          ('SetSoftRlimit, SetMemoryLimit', 'BASICS/clb_os_wrapper.c'),
          ('SecureMalloc', 'BASICS/clb_memory.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; kernel behaviour is trusted.'}

SCOPE = ['INOUT/cio_signals.c .',
 'INOUT/cio_tempfile.c .',
 'BASICS/clb_os_wrapper.c',
 'BASICS/clb_error.c',
 'BASICS/clb_memory.c',
 'BASICS/clb_newmem.c',
 'PROVER/eprover.c strategy_io|main|print_info|parse_spec']


def check(k):
    k.contracts()
