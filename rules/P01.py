"""Every path of the prover's main routine that prints an SZS verdict is checked for the evidence the verdict stands for, for the exit code it leads to,
and for being the only verdict; every other place that prints a status is enumerated and restricted."""
import re
from engine import *

META = {'title': 'A reported verdict and exit code are backed by what the search established',
 'statement': 'The prover reports Theorem, Unsatisfiable or ContradictoryAxioms only after the search produced a refutation (and distinguishes them '
              'by whether a conjecture was given and used), reports Satisfiable or CounterSatisfiable only after an exhausted search of a complete '
              'system without a refutation, and otherwise reports a failure status. At most one status is reported per run, and the process exit '
              'code agrees with it.',
 'over': ['inputs', 'configurations', 'histories'],
 'quant': 'for every problem, every combination of options and every way a search can end',
 'why': 'Tests check 19 problems whose verdict is Theorem/Unsatisfiable/Satisfiable in the default configuration; combinations of incomplete '
        'strategies, answers, interpreted symbols, limits and exit paths are not reached.',
 'files': ['PROVER/eprover.c', 'CONTROL/cco_interpreted.c', 'INOUT/cio_signals.c'],
 'mech': [('main: status selection and exit code', 'PROVER/eprover.c'),
          ('ClausePrintAnswer: early status', 'CONTROL/cco_interpreted.c'),
          ('ESignalHandler: status at a time limit', 'INOUT/cio_signals.c')],
 'note': 'Every path of the status-printing code is enumerated over branch correlations; trusted: the meaning of the individual flags (P02) and of '
         'the search result.'}

SZ = 'fprintf(_,"~SZS status",%s)'
ANY = SZ % "_"
PROOF = "Saturate(...) || ProofStateFilterUnprocessed(...) || $p->answer_count"
CONJ = "FormulaSetPreprocConjectures(...) %s 0"


SCOPE = ['PROVER/eprover.c .', 'CONTROL/cco_proofproc.c', 'CONTROL/cco_forward_contraction.c', 'CLAUSES/ccl_satinterface.c', 'BASICS/clb_error.c']


def check(k):
    k.contracts()
    A = dict(tu="PROVER/eprover.c")
    k.path("main", SZ % '"Theorem"', [CONJ % "!=", "DerivationCompute(...)->has_conjecture", PROOF, "!$p->status_reported",
                                      "-" + ANY], **A)
    k.path("main", SZ % '"ContradictoryAxioms"', [CONJ % "!=", "!DerivationCompute(...)->has_conjecture", PROOF, "!$p->status_reported", "-" + ANY], **A)
    k.path("main", SZ % '"Unsatisfiable"', [CONJ % "==", PROOF, "!$p->status_reported", "-" + ANY], **A)
    for st, r in (("Satisfiable", "=="), ("CounterSatisfiable", "!=")):
        k.path("main", SZ % ('"%s"' % st), [CONJ % r, "$p->state_is_complete", "@inf_sys_complete", "!$p->has_interpreted_symbols",
                                          "@problemType != PROBLEM_HO", "!Saturate(...)", "!$p->answer_count", "!@cnf_only",
                                          "$s->anchor == $s->anchor->succ", "-" + ANY], **A)
    k.path("main", SZ % '"ResourceOut"', ["!Saturate(...)", "!$p->answer_count", "-" + ANY], **A)
    k.path("main", SZ % '"GaveUp"', ["!Saturate(...)", "!$p->answer_count", "-" + ANY], **A)
    # exit code <-> verdict
    need = []
    for st, code in (("Satisfiable", 1), ("CounterSatisfiable", 1), ("ResourceOut", 9), ("GaveUp", 10), ("Theorem", 0), ("ContradictoryAxioms", 0),
                     ("Unsatisfiable", 0)):
        need.append("-%s || ret == %d" % (SZ % ('"%s"' % st), code))
    need.append("ret != 1 || +%s || +%s" % (SZ % '"Satisfiable"', SZ % '"CounterSatisfiable"'))
    need.append("ret != 0 || +%s || +%s || +%s || +%s || $p->status_reported || @app_encode || @print_formulas" % tuple(SZ % ('"%s"' % s) for s in
                ("Theorem", "ContradictoryAxioms", "Unsatisfiable", "Unknown")))
    k.path("main", "ret", need, **A)
    # every finished proof search reports a status
    k.path("main", "ret", ["-Saturate(...) || +%s || $p->status_reported || @SilentTimeOut" % ANY], **A)
    # the verdict is decided after the search, on what the search left behind

    # early answers
    k.path("ClausePrintAnswer", SZ % "_", ["ClauseIsSemFalse(arg1)", "!arg2->status_reported", "arg1->pos_lit_no + arg1->neg_lit_no != 0"])
    k.path("ClausePrintAnswer", "ret", ["-%s || +arg2->status_reported := true" % ANY])
    k.path("ESignalHandler", 'WriteStr(_,"~SZS status")', ["arg0 == 24", "!@TimeLimitIsSoft", "!@SilentTimeOut"])
    # who may print a status at all
    allowed = {("PROVER/eprover.c", "main"): None, ("CONTROL/cco_interpreted.c", "ClausePrintAnswer"): {"Theorem"},
               ("PROVER/eprover.c", "handle_auto_modes_preproc"): {"GaveUp"}, ("PROVER/eprover.c", "parse_spec"): {"InputError"},
               ("BASICS/clb_memory.c", "SecureMalloc"): {"ResourceOut"}, ("PROVER/e_stratpar.c", "main"): {"GaveUp"}}
    n = 0
    for c, p in k.model.progs.items():
        for f in p.fns.values():
            if (f.tu, f.name) in p.newfns:
                continue
            for b, ii, i in f.instrs():
                if i.op != "call" or i.callee() not in ("fprintf", "printf", "sprintf", "fputs", "snprintf", "dprintf"):
                    continue
                ss = [f.expr(a) for a in i.args()]
                fmt = [e[1] for e in ss if e[0] == "s" and "SZS status" in e[1]]
                if not fmt:
                    continue
                n += 1
                k.covered(1, f.file + ":" + f.name, site=1)
                key = (f.tu, p.renamed.get(f.name, f.name))
                m = re.search(r"SZS status (\w+)", fmt[0])
                if m:
                    vals = {m.group(1)}
                else:
                    vals = {e[1] for e in ss if e[0] == "s" and "SZS" not in e[1]} or {"?"}
                if key in allowed:
                    ok = allowed[key] is None or vals <= allowed[key]
                else:
                    ok = vals <= {"GaveUp", "Started", "Ended"}
                if not ok:
                    k.report("who prints a verdict", f.where(i), "prints SZS status %s outside the verdict code" % ",".join(sorted(vals)))
    if n < 20:
        raise Broken("only %d status printing sites found" % n)
