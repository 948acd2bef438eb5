----------------------------- MODULE T_Pipeline ------------------------------
(* Trace validation of processing against Pipeline (C22).  The steps of the  *)
(* configuration log themselves: [step, n, in, out, ref, dec, win, cal], all *)
(* but step and n as tokens of what they were given (0: not given).          *)
EXTENDS Pipeline, TraceKit

XInit == [made |-> {}]
XApply(s, e) == s

Name(x) == <<x.step, x.n>>
Names(log) == [k \in DOMAIN log |-> Name(log[k])]
Reads(log) == SelectSeq(log, LAMBDA x : x.step = "read")
Work(log) == SelectSeq(log, LAMBDA x : x.step # "read")

Expected(e) ==
    LET c == e.i IN
    IF c.entry = "process_evals_to_tf" THEN [reader |-> 0, fails |-> c.fault # 0, reads |-> FALSE]
    ELSE IF InProject(c.entry)
         THEN LET r == ProjectReader(c.readers) IN
              [reader |-> r, fails |-> c.fault # 0 \/ r = 0 \/ (r # 0 /\ c.readers[r] # "reads"), reads |-> r # 0 /\ c.readers[r] = "reads"]
         ELSE LET r == QuickReader(c.readers) IN [reader |-> r, fails |-> c.fault # 0 \/ r = 0, reads |-> r # 0]

\* data goes from one step to the next; the linear equations are prepared from gathered data
ChainedAt(log, k) == log[k].step \in {"prepare"} \/ (k > 1 => log[k].in = log[k - 1].out)

CheckRun(e) ==
    LET x == Expected(e)  log == e.o.log  w == Work(log)  c == e.i
        S == IF c.entry = "process_evals_to_tf" \/ x.reads THEN Started(Steps(c.entry, c.nt, c.ns), c.fault) ELSE <<>>
        full == e.ok /\ ~x.fails
        D(st) == {k \in DOMAIN w : w[k].step = st}
    IN
    [fails_exactly_when_it_must |-> e.ok = ~x.fails,
     read_once_by_first_able_reader |-> Names(Reads(log)) = IF x.reads THEN <<<<"read", x.reader>>>> ELSE <<>>,
     steps_once_each_in_order |-> Names(w) = S,
     each_step_on_previous_result |-> \A k \in DOMAIN log : ChainedAt(log, k),
     windows_from_reference_time |-> \A k \in D("window") : w[k].ref = c.ref,
     parameters_as_configured |->
        /\ \A k \in D("decimate") \cup D("evals") : w[k].dec = c.dec
        /\ \A k \in D("window") : w[k].win = c.win
        /\ \A k \in D("calibrate") : w[k].cal = c.cal,
     same_as_by_hand |-> full => log = e.o.hand,
     result_is_what_the_last_step_gave |-> full /\ e.o.result # 0 /\ log # <<>> => e.o.result = log[Len(log)].out,
     limits_respected |-> full /\ c.limits # <<>> => e.o.span = c.limits,
     stored_result |-> full /\ Stores(c.entry) => e.o.stored = log[Len(log)].out,
     nothing_stored_otherwise |-> ~(e.ok /\ Stores(c.entry)) => e.o.unchanged,
     configuration_unchanged |-> e.o.config]

XCheck(s, e) ==
    CASE e.ev = "run" -> CheckRun(e)
      [] e.ev = "default" -> [default_ran |-> e.ok, same_as_by_hand |-> e.ok => e.o.result = e.o.hand]
      [] OTHER -> [prepared |-> e.ok]
=============================================================================
