"""Parsing, marking, checking and printing of protocols."""
from engine import *

META = {'title': 'PCL protocols are read, checked, reduced and printed faithfully',
 'statement': 'The PCL tools parse steps with their identifiers, expressions, positions and properties as written, refuse duplicate or dangling '
              'identifiers, mark and extract exactly the steps a proof depends on, check each step against the clauses of its named premises (a step '
              'counts as checked only if the prover confirmed it), and lemma and property analyses keep every step of the protocol.',
 'over': ['inputs'],
 'quant': 'for every protocol',
 'why': 'The PCL tools are not exercised by the tests.',
 'files': ['PCL2/pcl_protocol.c',
           'PCL2/pcl_steps.c',
           'PCL2/pcl_expressions.c',
           'PCL2/pcl_proofcheck.c',
           'PCL2/pcl_miniprotocol.c',
           'PCL2/pcl_lemmas.c',
           'PROVER/checkproof.c'],
 'mech': [('PCLProtMarkProofClauses', 'PCL2/pcl_protocol.c'), ('PCLStepCheck', 'PCL2/pcl_proofcheck.c'), ('PCLExpr', 'PCL2/pcl_expressions.c')],
 'note': 'Structural clauses (guards of every effect, what it is applied to, what must happen before each exit and in each iteration) are decided on '
         'all paths of the listed functions; the external provers used for checking are trusted.'}

SCOPE = ['PCL2/pcl_analysis.c .',
 'PCL2/pcl_expressions.c .',
 'PCL2/pcl_idents.c .',
 'PCL2/pcl_lemmas.c .',
 'PCL2/pcl_miniclauses.c .',
 'PCL2/pcl_miniprotocol.c .',
 'PCL2/pcl_ministeps.c .',
 'PCL2/pcl_positions.c .',
 'PCL2/pcl_proofcheck.c .',
 'PCL2/pcl_propanalysis.c .',
 'PCL2/pcl_protocol.c .',
 'PCL2/pcl_steps.c .',
 'PROVER/checkproof.c',
 'PROVER/epclextract.c',
 'PROVER/epclanalyse.c',
 'PROVER/epcllemma.c']


def check(k):
    k.contracts()
