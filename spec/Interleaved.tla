----------------------------- MODULE Interleaved -----------------------------
(***************************************************************************)
(* Steps that run at the same time (property C37).                         *)
(*                                                                         *)
(* A step reads its inputs and puts its product at its own address: it     *)
(* looks whether the folder is there, makes it, writes the data and then    *)
(* the metadata.  Folders can be shared by addresses (all solutions of a    *)
(* site and configuration are in one), addresses cannot.  Steps none of    *)
(* which writes what another reads or writes are independent; run in any    *)
(* order, or in turns, each gives what it gives when it runs alone.         *)
(***************************************************************************)
EXTENDS Base

Independent(a, b) == a.out # b.out /\ a.out \notin b.ins /\ b.out \notin a.ins

=============================================================================
