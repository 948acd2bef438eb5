---------------------------- MODULE T_Bookkeeping ----------------------------
(* Trace validation of what a transfer function depends on (C35).            *)
EXTENDS Bookkeeping, TraceKit

XInit == [rec |-> <<>>, evals |-> <<>>]
Start(n) == [r \in 1 .. n |-> [name |-> r, order |-> 1, here |-> TRUE, amp |-> Unit]]

XApply(s, e) ==
    CASE e.ev = "start" -> [rec |-> Start(e.i.recs), evals |-> [n \in {} |-> 0]]
      [] e.ev = "rename" -> [s EXCEPT !.rec = Rename(@, e.i.r, e.i.name)]
      [] e.ev = "reorder" -> [s EXCEPT !.rec = Reorder(@, e.i.r, e.i.order)]
      [] e.ev = "toggle" -> [s EXCEPT !.rec = Toggle(@, e.i.r)]
      [] e.ev = "amplify" -> [s EXCEPT !.rec = Amplify(@, e.i.chan, e.i.d)]
      [] e.ev = "anew" -> [s EXCEPT !.evals = [n \in {} |-> 0]]
      [] e.ev = "process" -> [s EXCEPT !.evals = Process(s.rec, @, e.i.r)]
      [] OTHER -> s

CheckSolve(s, e) ==
    IF ~e.ok THEN [solved |-> FALSE]
    ELSE [made_of_the_recordings_here |-> Range(e.o.ids) = Made(s.rec, s.evals),
          amplified_as_the_channels |-> e.o.ids # <<>> => e.o.exps = Exponents(s.rec, s.evals),
          same_frequencies |-> e.o.ids # <<>> => e.o.freqs]

XCheck(s, e) ==
    CASE e.ev = "process" -> [processed |-> e.ok]
      [] e.ev = "solve" -> CheckSolve(s, e)
      [] OTHER -> [prepared |-> e.ok]
=============================================================================
