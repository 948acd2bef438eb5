------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* Data products on disk (properties C03 and C28).                         *)
(*                                                                         *)
(* A directory is absent, holds something else ("junk"), or holds a        *)
(* product: its data and its metadata, which are written one after the     *)
(* other.  A product is an abstract value; reading yields what was written *)
(* last.  A writer with overwriting off is refused where the directory     *)
(* exists.  recs counts the history records added since the product was    *)
(* made: one by every writer and one by every reader, none by looking at   *)
(* the metadata only.                                                      *)
(*                                                                         *)
(* A writer may be interrupted at any point, which leaves a torn directory *)
(* where data and metadata need not belong together or be complete: what a *)
(* reader makes of it is not specified, but a later write with overwriting *)
(* on has to put the new product there in full, and one with overwriting   *)
(* off has to leave it alone.                                              *)
(***************************************************************************)
EXTENDS Base

Absent == [exists |-> FALSE, data |-> 0, meta |-> 0, recs |-> 0]
Junk == [exists |-> TRUE, data |-> 0, meta |-> 0, recs |-> 0]
Holding(p, r) == [exists |-> TRUE, data |-> p, meta |-> p, recs |-> r]

Torn(dir) == dir.data # dir.meta \/ dir.data = -1
WriteRefused(dir, overwrite) == dir.exists /\ ~overwrite
Readable(dir) == dir.meta # 0 /\ ~Torn(dir)
RecsRead(dir, metaOnly) == dir.recs + (IF metaOnly THEN 0 ELSE 1)
\* writing product p which already carries r records since it was made
AfterWrite(dir, p, r, overwrite) == IF WriteRefused(dir, overwrite) THEN dir ELSE Holding(p, r + 1)
=============================================================================
