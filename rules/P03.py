"""The life cycle of worker processes (creation, collection of output, classification, adoption of a result, termination) is checked on every path of the
functions that manage them, for the built-in portfolio mode and for the batch tools."""
from engine import *

META = {'title': 'Portfolio and batch runs adopt only results their worker processes reported',
 'statement': "When strategies run in worker processes, the controlling process adopts a worker's result only if that worker's own output states it, "
              "prints the worker's complete output before ending, and ends with the worker's exit code. Workers that lose, fail or outlive the run "
              'are terminated and collected, and a worker never acts on its siblings.',
 'over': ['schedules', 'fault_sequences', 'inputs'],
 'quant': 'for every number of workers, order of completion, failure of a worker and arrival time of signals',
 'why': 'Tests run single short problems; interleavings of several workers, failing workers and signals are never exercised.',
 'files': ['CONTROL/cco_gproc_ctrl.c', 'CONTROL/cco_proc_ctrl.c', 'CONTROL/cco_scheduling.c', 'INOUT/cio_signals.c'],
 'mech': [('EGPCtrl*: forked strategies', 'CONTROL/cco_gproc_ctrl.c'),
          ('EPCtrl*: piped provers of the batch tools', 'CONTROL/cco_proc_ctrl.c'),
          ('ExecuteScheduleMultiCore', 'CONTROL/cco_scheduling.c')],
 'note': 'Typestate of a worker (created, registered, read, classified, killed/collected) on all paths; kernel behaviour of fork, pipe, select and '
         'wait is trusted.'}

STR = {"PRTheorem": ["% SZS status Theorem", "% SZS status ContradictoryAxioms"], "PRUnsatisfiable": ["% SZS status Unsatisfiable"],
       "PRSatisfiable": ["% SZS status Satisfiable"], "PRCounterSatisfiable": ["% SZS status CounterSatisfiable"]}


SCOPE = ['CONTROL/cco_proc_ctrl.c .',
 'CONTROL/cco_gproc_ctrl.c .',
 'CONTROL/cco_scheduling.c .',
 'CONTROL/cco_batch_spec.c .',
 'PROVER/e_ltb_runner.c',
 'PROVER/e_stratpar.c',
 'PROVER/eprover.c main|strategy|sched|print_info',
 'INOUT/cio_multiplexer.c .',
 'INOUT/cio_tempfile.c .']


def check(k):
    k.contracts()
    # --- classification of what a worker printed
    for code, ss in STR.items():
        k.path("EGPCtrlGetResult", "$h->result := " + code, [" || ".join('strstr(DStrView(arg0->output),"%s")' % s for s in ss), "!read(...)"], min=1)
        k.path("EPCtrlGetResult", "$h->result := " + code, [" || ".join('strstr(arg1,"%s")' % s for s in ss), "fgets(arg1,...)"], min=1)
    for s in [x for v in STR.values() for x in v]:
        code = [c for c, v in STR.items() if s in v][0]
        k.path("EPCtrlGetResult", "ret", ['!fgets(arg1,...) || !strstr(arg1,"%s") || +arg0->result := _' % s])
    k.path("EGPCtrlGetResult", "$h->result := PRFailure", ['!strstr(DStrView(arg0->output),"%s")' % s for v in STR.values() for s in v])
    k.path("EGPCtrlGetResult", "ret != 0", ["!read(...)", "+waitpid(arg0->pid,...)", "+arg0->exit_status := _", "+arg0->pid := 0", "+arg0->result := _"])
    k.path("EGPCtrlGetResult", "ret == 0", ["read(...) != 0", "+DStrAppendStr(arg0->output,arg1)", "-arg0->result := _"])
    k.path("EGPCtrlGetResult", "read(...)", ["-read(...)"])
    k.path("EGPCtrlGetResult", "$h->exit_status := (_ & 65280) >> 8", ["!(_ & 127)"])
    k.path("EPCtrlGetResult", "$h->result := PRFailure", ["arg0->result == PRNoResult", "!fgets(...)"])
    k.path("EPCtrlGetResult", "ret != 0", ["!fgets(...)"])
    k.path("EPCtrlGetResult", "ret == 0", ["fgets(...)", "+DStrAppendStr(arg0->output,_)"])
    ok = ["PRSatisfiable", "PRCounterSatisfiable", "PRTheorem", "PRUnsatisfiable"]
    k.path("EGPCtrlSetGetResult", "ret != 0", ["EGPCtrlGetResult($h,...)", " || ".join("$h->result == " + x for x in ok), "-EGPCtrlSetDeleteProc(...)  / EGPCtrlSetFindProc(...)"])
    k.path("EGPCtrlSetGetResult", "EGPCtrlSetDeleteProc(_,$h,1)", ["$h->result == PRFailure", "EGPCtrlGetResult($h,...)"])
    k.path("EGPCtrlSetGetResult", "EGPCtrlGetResult($h,...)", ["select(...) != -1"])
    k.path("EPCtrlSetGetResult", "choose ret", ["EPCtrlGetResult($ret,...)", "$ret->result == PRTheorem || $ret->result == PRUnsatisfiable"])
    k.path("EPCtrlSetGetResult", "EPCtrlSetDeleteProc(_,$h,arg1)", ["$h->result != PRTheorem && $h->result != PRUnsatisfiable || $h->result == PRSatisfiable || "
           "$h->result == PRCounterSatisfiable || $h->result == PRFailure", "EPCtrlGetResult($h,...)"])
    # --- creation: parent and child sides
    P, C = "fork() >= 1", "fork() == 0"
    k.path("EGPCtrlCreate", "ret != 0", ["fork() != 0", "+close($f[1])", "+$h->pid := fork()", "+$h->fileno := $f[0]", "+$h->name := _", "+$h->cpu_limit := arg2",
                                         "-close($f[0])", "-dup2(...)"])
    k.path("EGPCtrlCreate", "ret == 0", ["fork() == 0", "+signal(15,0)", "+dup2($f[1],1)", "+close($f[0])", "+close($f[1])", "+@GlobalOut := _",
                                         "!arg2 || +SetSoftRlimitErr(0,arg2,_)"])
    k.path("EGPCtrlCreate", "dup2(...)", ["-close($f[1])"])
    k.path("EGPCtrlCreate", "EGPCtrlAlloc(arg1)", ["fork() != 0", "fork() >= 0"])
    # --- the portfolio loop
    S = "ExecuteScheduleMultiCore"
    R = "EGPCtrlSetGetResult(...)"
    k.path(S, "exit($x)", ["@SigTermCaught && -fputs(...) || +fputs(DStrView($h->output),@GlobalOut) && +fflush(@GlobalOut)"])
    k.path(S, "exit($h->exit_status)", [R + " != 0", "+EGPCtrlSetFree(_,1)", "+fputs(DStrView($h->output),@GlobalOut)", "+fflush(@GlobalOut)"], min=1)
    k.path(S, "load $h->exit_status", ["-EGPCtrlSetFree(...)"])
    k.path(S, "load $h->output", ["-EGPCtrlSetFree(...)"])
    k.path(S, "EGPCtrlSetGetResult($p)", [R + " == 0 || -" + R])
    k.path(S, "EGPCtrlCreate($s->heu_name,$s->cores,$s->time_absolute)", ["$s->heu_name != 0", "-EGPCtrlSetFree(...)"], min=1)
    k.path(S, "EGPCtrlSetGetResult(...)", ["-EGPCtrlCreate(...) || +EGPCtrlSetAddProc(_,EGPCtrlCreate(...)) / EGPCtrlCreate(...)"])
    k.path(S, "EGPCtrlCreate(...)", ["-EGPCtrlCreate(...) || +EGPCtrlSetAddProc(_,EGPCtrlCreate(...)) / EGPCtrlCreate(...)"])
    k.path(S, "EGPCtrlSetFree(_,0)", ["EGPCtrlCreate(...) == 0"])
    k.path(S, "EGPCtrlSetFree(_,1)", ["-EGPCtrlCreate(...) || +EGPCtrlSetAddProc(_,EGPCtrlCreate(...)) / EGPCtrlCreate(...)"])
    k.path(S, "ret != -1", ["EGPCtrlCreate($s->heu_name,...) == 0", "+EGPCtrlSetFree(_,0)", "+arg1->heuristic_name := $s->heu_name",
                            "+arg1->order_params.ordertype := $s->ordering", "+@SilentTimeOut := 1", "!@SigTermCaught", "+signal(15,0)"])
    k.path(S, 'fprintf(_,"~Schedule exhausted")', ["+EGPCtrlSetFree(_,1)", R + " == 0", "!@SigTermCaught"])
    k.path("EGPCtrlSetFree", "EGPCtrlSetDeleteProc(arg0,_,$k)", ["$k == arg1"])
    k.path("EGPCtrlSetFree", "ret", ["arg0->procs == 0"])
    k.path("EGPCtrlSetDeleteProc", "EGPCtrlFree($h)", ["!arg2 || +EGPCtrlCleanup($h)", "+NumTreeExtractEntry(&arg0->procs,arg1->fileno)"])
    k.path("EGPCtrlSetDeleteProc", "ret", ["NumTreeExtractEntry(...) == 0 || +arg0->cores_reserved := arg0->cores_reserved - arg1->cores"])
    k.path("EGPCtrlSetDeleteProc", "load $x->cores", ["-EGPCtrlFree(...)"])
    k.path("EGPCtrlSetDeleteProc", "EGPCtrlCleanup(...)", ["arg2 != 0"])
    k.path("EGPCtrlSetAddProc", "ret", ["+NumTreeStore(&arg0->procs,arg1->fileno,...)", "+arg0->cores_reserved := arg0->cores_reserved + arg1->cores"])
    k.path("EGPCtrlCleanup", "ret", ["!arg0->pid || +kill(arg0->pid,15)", "!arg0->pid || kill(...) != 0 || +waitpid(arg0->pid,...)",
                                     "arg0->fileno == -1 || +close(arg0->fileno)", "!arg0->pid || +arg0->pid := 0"])
    k.path("EGPCtrlCleanup", "kill($p,15)", ["arg0->pid != 0"])
    k.path("EGPCtrlSetFDSet", "ret", ["NumTreeTraverseNext(...) == 0"])
    # --- batch tools: external provers through pipes
    k.path("EPCtrlCleanup", "ret", ["!arg0->pid || +kill(arg0->pid,15)", "!arg0->pipe || +pclose(arg0->pipe)", "!arg1 || !arg0->input_file || +TempFileRemove(arg0->input_file)"])
    k.path("EPCtrlCleanup", "kill(...)", ["arg0->pid != 0"])
    k.path("EPCtrlCleanup", "TempFileRemove(arg0->input_file)", ["arg1 != 0", "arg0->input_file != 0"])
    k.path("EPCtrlSetDeleteProc", "EPCtrlFree($h)", ["+EPCtrlCleanup($h,arg2)", "+NumTreeExtractEntry(&arg0->procs,arg1->fileno)"])
    k.path("EPCtrlSetFree", "EPCtrlFree($h)", ["+EPCtrlCleanup($h,arg1)"])
    k.path("EPCtrlSetFree", "ret", ["arg0->procs == 0"])
    k.path("ECtrlCreateGeneric", "ret", ["$h->pipe != 0", "+$h->pid := atoi(_)", "+$h->input_file := arg5", "+$h->fileno := fileno($h->pipe)", "+DStrAppendStr($c,arg0)",
                                         "+DStrAppendStr($c,arg2)", "+DStrAppendStr($c,arg3)", "+DStrAppendStr($c,arg5)", "+DStrAppendInt($c,arg4)"])
    k.loops("EGPCtrlSetGetResult", "EGPCtrlSetFDSet(...)", last=0)
    k.loops("EPCtrlSetGetResult", "EPCtrlSetFDSet(...)", last=0)
    k.path("EGPCtrlSetGetResult", "EGPCtrlSetFindProc(arg0,$i)", ["_ & _ != 0"])
    k.path("EPCtrlSetGetResult", "EPCtrlSetFindProc(arg0,$i)", ["_ & _ != 0"])
    k.path("EGPCtrlSetFDSet", "NumTreeTraverseNext(...)", ["-NumTreeTraverseNext(...) || +$f->__fds_bits[_] := _ / NumTreeTraverseNext(...)"])
    k.path("EPCtrlSetFDSet", "NumTreeTraverseNext(...)", ["-NumTreeTraverseNext(...) || +$f->__fds_bits[_] := _ / NumTreeTraverseNext(...)"])
    for w in ("", "G"):
        k.path("E%sPCtrlSetGetResult" % w, "select($n,...)", ["+E%sPCtrlSetFDSet(...)" % w])
    k.path(S, "EGPCtrlCreate(...)", ["+signal(15,_)", "+ScheduleTimesInitMultiCore(...)"])
    k.path(S, "EGPCtrlCreate($s->heu_name,...)", ["$m - _->cores_reserved >= $s->cores"])
    k.path(S, 'fprintf(_,"~Schedule exhausted")', ["NumTreeNodes(...) == 0", "$s->heu_name == 0", "+signal(15,0)"])
    k.path(S, "exit(14)", ["@SigTermCaught != 0", "+EGPCtrlSetFree(...)"])
    k.path("ECtrlCreateGeneric", "popen(DStrView($c),_)", ["+DStrAppendStr($c,arg2)", '+DStrAppendStr($c,"~--print-pid")', '+DStrAppendStr($c,"~--cpu-limit=")',
                                                           "+DStrAppendStr($c,arg0)", "+DStrAppendStr($c,arg5)", "+DStrAppendInt($c,arg4)"])
    k.path("ECtrlCreateGeneric", "ret", ["fgets(...) != 0", 'strstr(_,"~Pid") != 0', "+DStrAppendStr($h->output,_)"])
    # --- signals that end a scheduler
    k.path("ESigTermSchedHandler", "ret", ["arg0 != 15 || +@SigTermCaught := _"])
