------------------------------ MODULE Readers -------------------------------
(***************************************************************************)
(* Reading recordings (property C34).                                      *)
(*                                                                         *)
(* Reading runs a reader's own parts in a fixed order: its metadata, its   *)
(* data for a closed range of samples, and its scaling.  A request is      *)
(*   [n, K, metaOnly, given, scalings, from, to, fails]                    *)
(* given: metadata are handed in; fails: the part that fails, or "none".   *)
(*                                                                         *)
(* A folder of a built-in reader is [meta, files]: what its metadata file  *)
(* is like, and for every data file whether it is there and of the         *)
(* reader's type.                                                          *)
(***************************************************************************)
EXTENDS Views

Whole(q) == <<0, q.n - 1>>
LimitsBad(q) == Refused(Whole(q), q.K, q.from, q.to)
Range1(q) == Part(Whole(q), q.K, q.from, q.to)

\* the parts a request runs, in order
MetaPart(q) == IF q.metaOnly \/ ~q.given THEN <<<<"metadata">>>> ELSE <<>>
Stops(q) == q.fails = "metadata" /\ MetaPart(q) # <<>>
DataPart(q) == IF q.metaOnly \/ Stops(q) \/ LimitsBad(q) THEN <<>>
               ELSE <<<<"data", Range1(q)[1], Range1(q)[2]>>>>
ScalePart(q) == IF DataPart(q) = <<>> \/ q.fails = "data" \/ ~q.scalings THEN <<>> ELSE <<<<"scale">>>>
Parts(q) == MetaPart(q) \o DataPart(q) \o ScalePart(q)
Answered(q) ==
    /\ ~Stops(q)
    /\ ~q.metaOnly => /\ ~LimitsBad(q) /\ q.fails # "data"
                      /\ ~(q.scalings /\ q.fails = "scale")
TimesScaled(q) == Len(ScalePart(q))

\* a built-in reader accepts a folder with whole metadata where every data file is there and of its type
Accepts(folder) == folder.meta = "whole" /\ \A k \in DOMAIN folder.files : folder.files[k] = "there"
=============================================================================
