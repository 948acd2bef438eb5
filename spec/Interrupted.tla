----------------------------- MODULE Interrupted -----------------------------
(***************************************************************************)
(* Writing a product that may be interrupted at any point (property C36).   *)
(*                                                                         *)
(* A product on disk is a number of parts (its data files) and a mark (the  *)
(* metadata) that vouches for them.  Each is absent (0), written in part    *)
(* (-1) or the one of product p (p > 0).  A reader refuses a directory      *)
(* without a whole mark, and one whose parts are not whole; it cannot tell  *)
(* to which product a whole part belongs, so a mark may only ever stand     *)
(* beside the parts it was written with.                                    *)
(*                                                                         *)
(* The order of a write therefore is: the mark of what was there goes, the  *)
(* parts come, and the mark of the new product comes last.                  *)
(***************************************************************************)
EXTENDS Base

Nothing(parts) == [mark |-> 0, parts |-> [k \in 1 .. parts |-> 0]]
Whole(parts, p) == [mark |-> p, parts |-> [k \in 1 .. parts |-> p]]

\* what a reader makes of it: 0 refused, p product p, -2 a mixture nobody ever wrote
ReadAll(disk) ==
    IF disk.mark <= 0 \/ \E k \in DOMAIN disk.parts : disk.parts[k] <= 0 THEN 0
    ELSE IF \A k \in DOMAIN disk.parts : disk.parts[k] = disk.mark THEN disk.mark
    ELSE -2
\* and one that looks at the mark only
ReadMark(disk) == IF disk.mark <= 0 THEN 0 ELSE disk.mark

\* while product p is written where product q can be read (0: none)
Allowed(q, p) == {0, q, p}
\* the readings of a write follow this order: once the old product is gone it stays gone,
\* and once the new one is there it stays there
\* (putting the same product there again has no order)
Rank(r, q, p) == IF q = p THEN 0 ELSE IF r = p THEN 2 ELSE IF r = 0 /\ q # 0 THEN 1 ELSE 0
=============================================================================
