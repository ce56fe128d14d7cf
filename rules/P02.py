"""Every source of incompleteness (axiom pruning, discarded clauses, restricted inference systems, interpreted or unimplemented symbols) is followed to the flag
the Satisfiable verdict depends on, and no code sets such a flag back."""
from engine import *

META = {'title': 'Every loss of completeness is recorded before a model is claimed',
 'statement': 'Whenever input axioms are pruned, non-redundant clauses are thrown away, an incomplete inference system or strategy is selected, or '
              'symbols without a complete treatment occur, this is recorded so that a saturated state is not reported as a model or countermodel. '
              'Nothing later in the run resets such a record.',
 'over': ['inputs', 'configurations', 'histories'],
 'quant': 'for every option combination, memory situation and problem',
 'why': 'The tests run one configuration, in which no pruning or discarding happens.',
 'files': ['PROVER/eprover.c', 'CONTROL/cco_proofproc.c', 'CONTROL/cco_sine.c', 'HEURISTICS/che_hcb.c', 'CONTROL/cco_forward_contraction.c'],
 'mech': [('state_is_complete, inf_sys_complete, has_interpreted_symbols', 'PROVER/eprover.c, CLAUSES/ccl_proofstate.c'),
          ('cleanup_unprocessed_clauses', 'CONTROL/cco_proofproc.c'),
          ('ProofStateSinE / relevancy pruning', 'CONTROL/cco_sine.c, CLAUSES/ccl_relevance.c')],
 'note': 'All sources of incompleteness known in the tree are enumerated and followed on every path to the flag; a new kind of incompleteness added '
         'elsewhere is not recognised.'}


SCOPE = ['PROVER/eprover.c .',
 'CONTROL/cco_proofproc.c',
 'CONTROL/cco_sine.c',
 'CLAUSES/ccl_sine.c',
 'CLAUSES/ccl_proofstate.c',
 'CONTROL/cco_preprocessing.c',
 'CLAUSES/ccl_relevance.c',
 'CONTROL/cco_ho_inferences.c',
 'CONTROL/cco_simplification.c',
 'CLAUSES/ccl_clausesets.c Delete|Insert|Extract|Archive|Remove|NonUnit|Filter',
 'CONTROL/cco_paramodulation.c',
 'CONTROL/cco_factoring.c',
 'CONTROL/cco_eqnresolving.c']


def check(k):
    k.contracts()
    A = dict(tu="PROVER/eprover.c")
    SAT = "Saturate(_,_,@step_limit,...)"
    OFF = "+@inf_sys_complete := false"
    k.path("main", SAT, ["!SigHasUnimplementedInterpretedSymbols(...) || " + OFF,
                         "!($c->heuristic_parms.order_params.lit_cmp == LCTFOEqMax) || " + OFF,
                         "@h_parms->enable_eq_factoring || " + OFF,
                         "@h_parms->enable_neg_unit_paramod || " + OFF,
                         "$c->heuristic_parms.selection_strategy != &@SelectNoGeneration || " + OFF], **A)
    k.path("main", "FormulaSetPreprocConjectures(...)", ["+ProofStateSinE(...)", "+ProofStateRelevancyProcess(...)",
                                                         "!@incomplete || +$p->state_is_complete := false",
                                                         "!(ProofStateRelevancyProcess(...) + ProofStateSinE(...)) || +$p->state_is_complete := false"], **A)
    k.path("parse_spec", "ret", ["+$p->has_interpreted_symbols := FormulaSetHasInterpretedSymbol($p->f_axioms) / FormulaAndClauseSetParse(...)"], **A)
    k.path("FormulaSetHasInterpretedSymbol", "ret == 0", ["arg0->anchor == $h"])
    k.lists("FormulaSetHasInterpretedSymbol", "succ", "arg0->anchor->succ")
    k.path("SigHasUnimplementedInterpretedSymbols", "ret == 0", ["arg0->f_count < $i"])
    k.path("TermHasInterpretedSymbol", "ret == 0", ["PStackAlloc()->current == 0"])
    k.loops("TermHasInterpretedSymbol", "$t->arity")
    k.path("ProofStateSinE", "ret", ["ret == 0 && -StructFOFSpecGetProblem(...) || ret is ($a->members + $b->members) - ($c->members + $d->members)"])
    k.path("ProofStateRelevancyProcess", "ret", ["ret == 0 && !arg1 || ret is ($a->members + $b->members) - ($c->members + $d->members)"])
    # clauses thrown away to save memory
    k.path("cleanup_unprocessed_clauses", "ret", ["-HCBClauseSetDeleteBadClauses(...) || !HCBClauseSetDeleteBadClauses(...) || +arg0->state_is_complete := false"],
           )
    k.path("cleanup_unprocessed_clauses", "arg0->non_redundant_deleted := $x", ["$x is arg0->non_redundant_deleted + HCBClauseSetDeleteBadClauses(...)"], min=1)
    k.path("HCBClauseSetDeleteBadClauses", "ret", ["ret is ClauseSetDeleteMarkedEntries(arg1)"])
    k.callers("HCBClauseSetDeleteBadClauses", {"cleanup_unprocessed_clauses"})
    k.callers("ClauseSetDeleteNonUnits", {"ProofStateFilterUnprocessed"})
    k.callers("ProofStateFilterUnprocessed", {"main"})
    k.path("ProofStateFilterUnprocessed", "ret", ["-ClauseSetDeleteNonUnits(...) || +arg0->non_redundant_deleted := _"])
    # flags are one-way
    k.writers("state_is_complete", {"ProofStateAlloc"}, value="true")
    k.writers("@inf_sys_complete", set(), value="true", min=0)
    k.writers("has_interpreted_symbols", {"ProofStateAlloc", "parse_spec"})
    k.path("process_options", "@incomplete := true", ["$o->option_code == OPT_ASSUME_INCOMPLETENESS"], **A)
    k.path("process_options", "@h_parms->enable_eq_factoring := false", ["$o->option_code == OPT_DISABLE_EQ_FACTORING"], **A)
    k.path("process_options", "@h_parms->enable_neg_unit_paramod := false", ["$o->option_code == OPT_DISABLE_NEGUNIT_PM"], **A)
    k.path("process_options", "CLStateGetOpt(...)", ["-CLStateGetOpt(...) || $o->option_code != OPT_ASSUME_INCOMPLETENESS || +@incomplete := true"], **A)
