--------------------------- MODULE MC_Interrupted ---------------------------
EXTENDS Interrupted, TLC, Json
\* Protocol: "mark-last" as it must be; "keeps-mark" leaves the mark of what was there;
\* "mark-first" writes the mark before the parts
CONSTANTS Parts, Products, Depth, Recording, Protocol
VARIABLES disk, pc, good, seen, hist
ivars == <<disk, pc, good, seen, hist>>

Idle == [at |-> "idle", p |-> 0, k |-> 0]
IInit == disk = Nothing(Parts) /\ pc = Idle /\ good = 0 /\ seen = 0 /\ hist = <<>>

Next(p) == CASE Protocol = "mark-first" -> [at |-> "mark", p |-> p, k |-> 0]
             [] OTHER -> [at |-> "part", p |-> p, k |-> 1]
\* good: what could be read before; seen: the rank of the readings so far
Begin == \E p \in Products :
    /\ pc.at = "idle" /\ Len(hist) < Depth
    /\ good' = ReadAll(disk)
    /\ pc' = IF Protocol = "mark-last" /\ disk.mark # 0 THEN [at |-> "unmark", p |-> p, k |-> 0] ELSE Next(p)
    /\ seen' = Rank(ReadAll(disk), good', p)
    /\ UNCHANGED <<disk, hist>>
Look == seen' = Rank(ReadAll(disk'), good, pc.p)
Unmark == /\ pc.at = "unmark" /\ disk' = [disk EXCEPT !.mark = 0] /\ pc' = Next(pc.p)
          /\ Look /\ UNCHANGED <<good, hist>>
PartTorn == /\ pc.at = "part" /\ disk.parts[pc.k] # -1 /\ disk' = [disk EXCEPT !.parts[pc.k] = -1]
            /\ Look /\ UNCHANGED <<pc, good, hist>>
\* the part comes whole: written over the torn one, or all at once
PartWhole == /\ pc.at = "part" /\ disk' = [disk EXCEPT !.parts[pc.k] = pc.p]
             /\ IF pc.k < Parts THEN pc' = [pc EXCEPT !.k = @ + 1] /\ UNCHANGED hist
                ELSE IF Protocol = "mark-first"
                THEN pc' = Idle /\ hist' = Append(hist, [p |-> pc.p, stop |-> "none"])
                ELSE pc' = [pc EXCEPT !.at = "mark"] /\ UNCHANGED hist
             /\ Look /\ UNCHANGED good
MarkTorn == /\ pc.at = "mark" /\ disk.mark # -1 /\ disk' = [disk EXCEPT !.mark = -1]
            /\ Look /\ UNCHANGED <<pc, good, hist>>
MarkWhole == /\ pc.at = "mark" /\ disk' = [disk EXCEPT !.mark = pc.p]
             /\ IF Protocol = "mark-first" THEN pc' = [at |-> "part", p |-> pc.p, k |-> 1] /\ UNCHANGED hist
                ELSE pc' = Idle /\ hist' = Append(hist, [p |-> pc.p, stop |-> "none"])
             /\ Look /\ UNCHANGED good
Interrupt == /\ pc.at # "idle" /\ pc' = Idle
             /\ hist' = Append(hist, [p |-> pc.p, stop |-> pc.at])
             /\ UNCHANGED <<disk, good, seen>>
INext == Begin \/ Unmark \/ PartTorn \/ PartWhole \/ MarkTorn \/ MarkWhole \/ Interrupt
ISpec == IInit /\ [][INext]_ivars

Now == IF hist = <<>> THEN 0 ELSE hist[Len(hist)].p
NeverMixed == ReadAll(disk) # -2
OldOrNewOrNothing == pc.at # "idle" => ReadAll(disk) \in Allowed(good, pc.p)
\* the mark says what the parts are, as far as they can be read at all
MarkVouches == ReadMark(disk) # 0 => ReadAll(disk) = ReadMark(disk)
WholeWhenDone == (pc.at = "idle" /\ hist # <<>> /\ hist[Len(hist)].stop = "none") => disk = Whole(Parts, Now)
NeverBack == [][pc.at # "idle" => seen' >= seen]_ivars

\* what is on disk does not depend on how the case went, once it is recorded
Emit == (Recording /\ pc.at = "idle" /\ Len(hist) = Depth) => PrintT("@@CASE " \o ToJson([writes |-> hist]))
=============================================================================
