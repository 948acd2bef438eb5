---------------------------- MODULE T_Interrupted ----------------------------
(* Trace validation of interrupted writes against Interrupted (C36).         *)
(* A point is a state the disk went through while product p was written, or  *)
(* was left in; read is the product the reader made of it (0: refused, -2:   *)
(* none of those ever written), marks the ones its metadata fits.            *)
EXTENDS Interrupted, TraceKit

XInit == [good |-> 0, cur |-> 0, rank |-> 0, ok |-> TRUE]

RankOf(s, e) == Rank(e.o.read, s.good, e.i.p)

XApply(s, e) ==
    CASE e.ev = "start" -> XInit
      \* every trial of a write starts where the write before has left the disk
      [] e.ev = "begin" -> [s EXCEPT !.good = s.cur, !.rank = 0, !.ok = TRUE]
      [] e.ev = "ran" -> [s EXCEPT !.ok = IF e.i.mode = "whole" THEN e.ok ELSE ~e.o.raised]
      [] e.ev = "point" ->
            IF ~e.ok THEN s
            ELSE [s EXCEPT !.rank = IF RankOf(s, e) > @ THEN RankOf(s, e) ELSE @,
                           !.cur = IF e.i.mode \in {"end", "left"} THEN e.o.read ELSE @]
      [] OTHER -> s

XCheck(s, e) ==
    CASE e.ev = "start" -> [products_read_back |-> e.ok]
      [] e.ev = "ran" -> [written |-> e.i.mode = "whole" => e.ok]
      [] e.ev = "point" ->
            IF ~e.ok THEN [readable_or_refused |-> FALSE]
            ELSE [nothing_that_was_never_written |-> e.o.read # -2,
                  old_or_new_or_nothing |-> e.o.read \in Allowed(s.good, e.i.p) \cup {-2},
                  metadata_vouches_for_data |-> 0 \in Range(e.o.marks) \/ e.o.read \in Range(e.o.marks),
                  never_back |-> e.i.mode \in {"torn", "ended"} => RankOf(s, e) >= s.rank,
                  complete_when_done |-> (e.i.last /\ s.ok) => e.o.read = e.i.p]
      [] OTHER -> <<>>
=============================================================================
