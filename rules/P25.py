"""All functions that open, read, write and close files."""
from engine import *

META = {'title': 'Input and output errors are noticed and reported, and streams are closed',
 'statement': 'Every file that is opened is checked and, on failure, reported with its name; every output stream is flushed and its error state '
              'checked before the program claims success; streams and buffers are closed exactly once on all paths; lock and copy helpers propagate '
              'failures to their callers.',
 'over': ['fault_sequences', 'inputs'],
 'quant': 'for every file system error at any of these calls',
 'why': 'No I/O error occurs in the tests.',
 'files': ['INOUT/cio_fileops.c',
           'INOUT/cio_output.c',
           'INOUT/cio_streams.c',
           'INOUT/cio_initio.c',
           'INOUT/cio_filevars.c',
           'BASICS/clb_os_wrapper.c'],
 'mech': [('InputOpen, OutOpen, OutClose, SecureFOpen, SecureFClose', 'INOUT/cio_fileops.c'), ('streams', 'INOUT/cio_streams.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; the meaning of errno values is trusted.'}

SCOPE = ['INOUT/cio_fileops.c .',
 'INOUT/cio_output.c .',
 'INOUT/cio_streams.c .',
 'INOUT/cio_initio.c .',
 'INOUT/cio_filevars.c .',
 'INOUT/cio_simplestuff.c .']


def check(k):
    k.contracts()
