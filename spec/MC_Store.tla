------------------------------ MODULE MC_Store ------------------------------
EXTENDS Store, TLC, Json
CONSTANTS Dirs, Products, Depth, Recording, Crashes
VARIABLES disk, pc, last, hist
svars == <<disk, pc, last, hist>>

Idle == [at |-> "idle", d |-> 0, p |-> 0, r |-> 0]
Note(h) == IF Recording THEN Append(hist, h) ELSE hist

SInit == /\ disk \in [Dirs -> {Absent, Junk}]
         /\ pc = Idle /\ last = [d \in Dirs |-> 0] /\ hist = <<>>

\* the writer's steps: make the directory, or remove the metadata of what is there; data; metadata
Begin == \E d \in Dirs, p \in Products, o \in BOOLEAN :
    /\ pc = Idle
    /\ hist' = Note([op |-> "write", d |-> d, p |-> p, overwrite |-> o])
    /\ IF WriteRefused(disk[d], o) THEN UNCHANGED <<disk, pc, last>>
       ELSE /\ disk' = [disk EXCEPT ![d].exists = TRUE, ![d].meta = 0]
            /\ pc' = [at |-> "data", d |-> d, p |-> p, r |-> 1]
            /\ UNCHANGED last
PutData == /\ pc.at = "data"
           /\ disk' = [disk EXCEPT ![pc.d].data = pc.p]
           /\ pc' = [pc EXCEPT !.at = "meta"] /\ UNCHANGED <<last, hist>>
PutMeta == /\ pc.at = "meta"
           /\ disk' = [disk EXCEPT ![pc.d].meta = pc.p, ![pc.d].recs = pc.r]
           /\ last' = [last EXCEPT ![pc.d] = pc.p]
           /\ pc' = Idle /\ UNCHANGED hist
\* a writer is interrupted with its data or its metadata written in part or not at all
Crash == \E torn \in BOOLEAN :
    /\ pc.at \in {"data", "meta"} /\ pc.r = 1 /\ Crashes
    /\ disk' = [disk EXCEPT ![pc.d] =
                 IF pc.at = "data" THEN [@ EXCEPT !.data = IF torn THEN -1 ELSE @]
                 ELSE [@ EXCEPT !.meta = IF torn THEN -1 ELSE @]]
    /\ last' = [last EXCEPT ![pc.d] = IF Torn(disk'[pc.d]) THEN -1 ELSE disk'[pc.d].meta]
    /\ hist' = IF Recording
               THEN [hist EXCEPT ![Len(hist)] = [op |-> "crash", d |-> pc.d, p |-> pc.p, at |-> pc.at, torn |-> torn]]
               ELSE hist
    /\ pc' = Idle
Read == \E d \in Dirs, m \in BOOLEAN :
    /\ pc = Idle /\ Recording /\ hist' = Note([op |-> "read", d |-> d, meta |-> m])
    /\ UNCHANGED <<disk, pc, last>>
\* what was read is written somewhere else, or back
Copy == \E d, e \in Dirs, o \in BOOLEAN :
    /\ pc = Idle /\ Readable(disk[d])
    /\ hist' = Note([op |-> "copy", d |-> d, e |-> e, overwrite |-> o])
    /\ IF WriteRefused(disk[e], o) THEN UNCHANGED <<disk, pc, last>>
       ELSE /\ disk' = [disk EXCEPT ![e].exists = TRUE, ![e].meta = 0]
            /\ pc' = [at |-> "data", d |-> e, p |-> disk[d].data, r |-> RecsRead(disk[d], FALSE) + 1]
            /\ UNCHANGED last
SNext == Crash \/ Begin \/ PutData \/ PutMeta \/ Read \/ Copy
SSpec == SInit /\ [][SNext]_svars

\* data and metadata of a finished write belong to the same, last product
\* metadata never stand beside data they were not written with
NeverMixedUp == \A d \in Dirs : disk[d].meta > 0 => disk[d].data = disk[d].meta
NeverMixed == pc = Idle => \A d \in Dirs : Torn(disk[d]) \/ disk[d].data = disk[d].meta
ReadsLast == pc = Idle => \A d \in Dirs : Torn(disk[d]) \/ disk[d].meta = last[d]
\* a step touches at most the directory being written
OnlyOwn == [][\A d \in Dirs : disk'[d] # disk[d] => (pc.d = d \/ pc'.d = d)]_svars
\* a torn directory is left so, or put right by a whole write, never read
TornUntilRewritten == [][\A d \in Dirs : (Torn(disk[d]) /\ pc.d # d /\ pc'.d # d) => (disk'[d] = disk[d])]_svars
\* with overwriting off nothing that exists is touched: checked as refusal leaves the state
RefusalKeeps == [][(pc = Idle /\ pc' = Idle) => disk' = disk]_svars

\* a stored product has been written once more than it has been read
EveryStepRecorded == pc = Idle => \A d \in Dirs : Readable(disk[d]) => disk[d].recs % 2 = 1
FewRecords == \A d \in Dirs : disk[d].recs <= 5
\* the steps of a write add up to AfterWrite
WriteIsAtomicWhenDone == [][PutMeta => disk'[pc.d] = Holding(pc.p, pc.r)]_svars

Emit == (Recording /\ Len(hist) = Depth /\ pc = Idle) =>
    PrintT("@@CASE " \o ToJson([junk |-> [d \in Dirs |-> disk[d] = Junk], ops |-> hist]))
Bound == Len(hist) <= Depth
=============================================================================
