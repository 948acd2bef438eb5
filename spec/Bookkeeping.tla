---------------------------- MODULE Bookkeeping -----------------------------
(***************************************************************************)
(* What a transfer function depends on (property C35).                     *)
(*                                                                         *)
(* A project holds recordings.  rec[r] is [name, order, here, amp]: the    *)
(* name of the measurement, the order its channels are stored in, whether  *)
(* it is in the project, and how its channels were amplified: exponents    *)
(* of two for the outputs ("o1", "o2"), the inputs ("in") and the channels *)
(* of the cross site ("x").  evals maps names of measurements to what was  *)
(* processed under them: the recording and its amplification then.         *)
(*                                                                         *)
(* The transfer function comes from the recordings in the project, as they *)
(* were when processed; nothing but their content and their amplification  *)
(* matters.                                                                *)
(***************************************************************************)
EXTENDS Base, TLC

Unit == [o1 |-> 0, o2 |-> 0, in |-> 0, x |-> 0]
Here(rec) == {r \in DOMAIN rec : rec[r].here}
Evals(rec, evals) == {evals[rec[r].name] : r \in Here(rec)}
Ready(rec, evals) ==
    /\ Here(rec) # {}
    /\ \A r \in Here(rec) : rec[r].name \in DOMAIN evals
    /\ Cardinality({v.amp : v \in Evals(rec, evals)}) = 1
\* the recordings the transfer function is made of, and the exponents it comes out with
Made(rec, evals) == {v.id : v \in Evals(rec, evals)}
Exponents(rec, evals) == LET a == (CHOOSE v \in Evals(rec, evals) : TRUE).amp IN
    << <<a.o1 - a.in, a.o1 - a.in>>, <<a.o2 - a.in, a.o2 - a.in>> >>

Rename(rec, r, n) == [rec EXCEPT ![r].name = n]
Reorder(rec, r, k) == [rec EXCEPT ![r].order = k]
Toggle(rec, r) == [rec EXCEPT ![r].here = ~@]
Amplify(rec, c, d) == [r \in DOMAIN rec |-> [rec[r] EXCEPT !.amp[c] = @ + d]]
Process(rec, evals, r) == (rec[r].name :> [id |-> r, amp |-> rec[r].amp]) @@ evals
=============================================================================
