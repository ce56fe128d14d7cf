"""Network framing, session state machines and batch processing."""
from engine import *

META = {'title': 'Client/server and interactive modes frame messages and isolate sessions',
 'statement': 'Messages over sockets are sent and received completely with their length header despite partial transfers, connection errors are '
              'reported, listening sockets are bound as requested; the interactive and batch deduction modes execute exactly the commands they '
              'recognise, answer every command with its status line, add and remove only the named axiom sets, and run each job in a process whose '
              'failure does not affect the server.',
 'over': ['inputs', 'fault_sequences', 'schedules'],
 'quant': 'for every sequence of commands and every pattern of partial reads and writes',
 'why': 'The servers are not exercised by the tests.',
 'files': ['INOUT/cio_network.c',
           'INOUT/cio_multiplexer.c',
           'CONTROL/cco_einteractive_mode.c',
           'CONTROL/cco_eserver.c',
           'CONTROL/cco_esession.c',
           'CONTROL/cco_batch_spec.c',
           'PROVER/e_server.c',
           'PROVER/e_client.c',
           'PROVER/e_deduction_server.c'],
 'mech': [('TCPString*, CreateServerSock', 'INOUT/cio_network.c'),
          ('interactive commands', 'CONTROL/cco_einteractive_mode.c'),
          ('BatchProcess*', 'CONTROL/cco_batch_spec.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         "all paths of the listed functions; the operating system's socket semantics are trusted."}

SCOPE = ['INOUT/cio_network.c .',
 'INOUT/cio_multiplexer.c .',
 'CONTROL/cco_einteractive_mode.c .',
 'CONTROL/cco_eserver.c .',
 'CONTROL/cco_esession.c .',
 'CONTROL/cco_batch_spec.c .',
 'PROVER/e_server.c',
 'PROVER/e_client.c',
 'PROVER/e_deduction_server.c',
 'PROVER/e_ltb_runner.c',
 'PROVER/e_stratpar.c']


def check(k):
    k.contracts()
