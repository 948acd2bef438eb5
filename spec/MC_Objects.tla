----------------------------- MODULE MC_Objects ------------------------------
(* Programs that branch over data objects, with memory made explicit: the    *)
(* metadata of an object lives in a cell, a step copies the cell of its      *)
(* input (or, with Sharing, uses it) and appends its record to it.           *)
EXTENDS Objects, Json
CONSTANTS MaxObjs, MaxFiles, Depth, Recording, Sharing, Deep
VARIABLES objs, files, cells, cell, hist
svars == <<objs, files, cells, cell, hist>>
\* objs: what each object should be; cells: histories in memory; cell[o]: where object o has its history
Note(h) == IF Recording THEN Append(hist, h) ELSE hist
Rec == Len(objs) + Len(files) + 1
Root == [kind |-> "time", hist |-> <<0>>, con |-> {}]

SInit == objs = <<Root>> /\ files = <<>> /\ cells = <<Root.hist>> /\ cell = <<1>> /\ hist = <<>>

Starts(st) == st \in {"gather", "spectra_regression", "gathered_regression"}
NewCell(o, st, rec) ==
    IF Sharing /\ ~Starts(st)
    THEN /\ cells' = [cells EXCEPT ![cell[o]] = Append(@, rec)]
         /\ cell' = Append(cell, cell[o])
    ELSE /\ cells' = Append(cells, HistAfter(st, [hist |-> cells[cell[o]]], rec))
         /\ cell' = Append(cell, Len(cells) + 1)
Step == \E o \in DOMAIN objs, st \in DOMAIN Steps :
    /\ Len(objs) < MaxObjs /\ Steps[st][1] = objs[o].kind
    \* Deep: programs that hurry on towards a solution
    /\ Deep => o >= Len(objs) - 2 /\ (st = "process" => Len(objs) < 4)
    /\ objs' = Append(objs, Result(st, objs[o], Rec))
    /\ NewCell(o, st, Rec)
    /\ hist' = Note([op |-> "step", src |-> o, st |-> st])
    /\ UNCHANGED files
\* an earlier step once more on the same input
Again == /\ Recording /\ (Deep => Len(hist) > Depth - 4) /\ Len(objs) < MaxObjs
    /\ \E k \in DOMAIN hist :
        /\ hist[k].op = "step"
        /\ objs' = Append(objs, Result(hist[k].st, objs[hist[k].src], Rec))
        /\ NewCell(hist[k].src, hist[k].st, Rec)
        /\ hist' = Note([op |-> "again", k |-> k])
        /\ UNCHANGED files
Write == \E o \in DOMAIN objs :
    /\ objs[o].kind \in Storable /\ Len(files) < MaxFiles
    /\ files' = Append(files, Stored([objs[o] EXCEPT !.hist = cells[cell[o]]], Rec))
    /\ IF Sharing THEN cells' = [cells EXCEPT ![cell[o]] = Append(@, Rec)] ELSE UNCHANGED cells
    /\ hist' = Note([op |-> "write", src |-> o])
    /\ UNCHANGED <<objs, cell>>
Read == \E f \in DOMAIN files :
    /\ Len(objs) < MaxObjs
    /\ objs' = Append(objs, Loaded(files[f], Rec))
    /\ cells' = Append(cells, Append(files[f].hist, Rec))
    /\ cell' = Append(cell, Len(cells) + 1)
    /\ hist' = Note([op |-> "read", f |-> f])
    /\ UNCHANGED files
SNext == Step \/ Again \/ Write \/ Read
SSpec == SInit /\ [][SNext]_svars

\* what is in memory is what every object should be
MemoryFaithful == \A o \in DOMAIN objs : cells[cell[o]] = objs[o].hist
\* nothing ever changes an existing object or file
Immutable == [][/\ \A o \in DOMAIN objs : objs'[o] = objs[o] /\ cells'[cell[o]] = cells[cell[o]]
                /\ \A f \in DOMAIN files : files'[f] = files[f]]_svars
\* records along a history are in the order in which they were made, none twice
Ordered == \A o \in DOMAIN objs : \A i, j \in DOMAIN objs[o].hist : i < j => objs[o].hist[i] < objs[o].hist[j]
ContributorsKept == \A o \in DOMAIN objs : objs[o].kind \in {"gath", "reg", "sol"} => objs[o].con # {} /\ \A h \in objs[o].con : Head(h) = 0
Emit == (Recording /\ Len(hist) = Depth) => PrintT("@@CASE " \o ToJson([ops |-> hist]))
Bound == Len(hist) <= Depth
=============================================================================
