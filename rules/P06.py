"""The unification and matching procedures (first-order, higher-order, pattern, fixpoint, and the enumeration of unifiers) are checked on every path: each
binding is preceded by the tests that make it a solution, success is only reported when nothing is left to solve, failure restores the bindings."""
from engine import *

META = dict(
    title="Unification and matching return genuine unifiers and matchers, and undo failures",
    statement="When unification succeeds, both terms become equal under the computed bindings; when matching succeeds, the pattern becomes equal to the target without "
              "binding target variables; bindings are well-typed, never cyclic and never capture bound variables. When either fails, all variable bindings are as they "
              "were before the attempt.",
    over=["inputs", "histories"], quant="for every pair of terms of the same or different types, every state of the bindings at entry, in first-order and higher-order mode",
    why="The tests only observe whole-problem verdicts on 19 problems; a missing occurs check, a wrong type test or an incomplete restoration shows on special term pairs only.",
    files=["TERMS/cte_match_mgu_1-1.c", "TERMS/cte_pattern_match_mgu.c", "TERMS/cte_fixpoint_unif.c", "TERMS/cte_ho_csu.c", "TERMS/cte_subst.c"],
    mech=[("SubstComputeMgu / SubstComputeMatch and their higher-order variants", "TERMS/cte_match_mgu_1-1.c"), ("pattern unification", "TERMS/cte_pattern_match_mgu.c"),
          ("fixpoint oracle", "TERMS/cte_fixpoint_unif.c"), ("enumeration of unifiers", "TERMS/cte_ho_csu.c"), ("binding and backtracking", "TERMS/cte_subst.c")],
    note="Guards of every binding, every success and failure exit, and traversal completeness are decided on all paths; correctness of lambda normalisation is assumed.")


S = """OccurCheck SubstComputeMgu SubstComputeMatch SubstComputeMguHO SubstComputeMatchHO PartiallyMatchVar PruneLambdaPrefix SubstMatchComplete
SubstMguComplete flex_rigid solve_flex_rigid flex_flex_same flex_flex_diff SubstComputeMguPattern schedule_jobs SubstComputeMatchPattern match_var
remap_variables NormalizePatternAppVar SubstComputeFixpointMgu rigid_path_check rigid_path_check_args NextCSUElement forward_iter backtrack_iter CSUIterInit
CSUIterDestroy SubstAddBinding SubstBindAppVar SubstBacktrackSingle SubstBacktrackToPos SubstBacktrack schedule_args SubstNormTerm SubstIsRenaming db_var_map
TermDerefAlways TermDeref GetHeadType TermCreatePrefix""".split()
SCOPE = [(f, {}) for f in S]


def check(k):
    k.contracts()
