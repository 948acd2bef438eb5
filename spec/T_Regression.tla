---------------------------- MODULE T_Regression ----------------------------
(* Trace validation of regression preparation (C16) and solution (C17).      *)
EXTENDS Regression, TraceKit

XInit == 0
XApply(s, e) == s

\* o.eqs[f][r] = <<predictors, <<observation of each output channel>>>>
CheckPrepare(e) ==
    LET i == e.i IN
    IF ~e.ok THEN [prepared |-> FALSE]
    ELSE [frequencies_in_order |-> e.o.freqs = i.freqs /\ e.o.n_freqs = Len(i.freqs),
          every_output_channel |-> e.o.obs_chans = [f \in DOMAIN i.freqs |-> i.out_chans],
          same_predictors_for_all_outputs |-> e.o.same_preds,
          equations |-> /\ Len(e.o.eqs) = Len(i.freqs)
                        /\ \A f \in DOMAIN i.freqs : SameBag(e.o.eqs[f], System(i.data[f])),
          contributors |-> e.o.contributors = i.contributors,
          transfer_function |-> e.o.tf = i.tf]

Labels(i) == {<<o, p>> : o \in DOMAIN i.out_chans, p \in DOMAIN i.in_chans}
Key(i, l) == i.out_chans[l[1]] \o i.in_chans[l[2]]
\* i.Z[f][o][p]; the data must really be generated by it, or the harness is wrong
CheckSolve(e) ==
    LET i == e.i IN
    IF \E f \in DOMAIN i.freqs : ~Generated(i.data[f], i.Z[f]) THEN [harness_data_consistent |-> FALSE]
    ELSE IF ~e.ok THEN [solved |-> FALSE]
    ELSE [labels |-> Range(e.o.keys) = {Key(i, l) : l \in Labels(i)},
          components |-> \A l \in Labels(i) : Key(i, l) \in Range(e.o.keys) /\
                \A f \in DOMAIN i.freqs : e.o.components[Key(i, l)][f] = i.Z[f][l[1]][l[2]],
          component_lengths |-> \A k \in Range(e.o.keys) : Len(e.o.components[k]) = Len(i.freqs),
          tensors |-> e.o.tensors = i.Z,
          frequencies |-> e.o.freqs = i.freqs /\ e.o.n_freqs = Len(i.freqs),
          \* periods in microseconds
          periods |-> \A f \in DOMAIN i.freqs : AbsI(e.o.periods[f] * i.freqs[f] - 1000000) <= i.freqs[f],
          transfer_function |-> e.o.tf = i.tf,
          contributors |-> e.o.contributors = i.contributors,
          history |-> Len(e.o.history) = Len(i.history) + 1 /\ SubSeq(e.o.history, 1, Len(i.history)) = i.history,
          stored |-> e.o.stored_same,
          unknown_component_refused |-> e.o.unknown_refused]

XCheck(s, e) ==
    CASE e.ev = "prepare" -> CheckPrepare(e)
      [] e.ev = "solve" -> CheckSolve(e)
=============================================================================
