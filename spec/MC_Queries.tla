----------------------------- MODULE MC_Queries ------------------------------
(* Measurements come and go on disk, the project is loaded and asked.        *)
EXTENDS Queries, TLC, Json
CONSTANTS Sites, Names, NFs, MaxT, Depth, Recording
VARIABLES disk, mem, hist
qvars == <<disk, mem, hist>>
Note(h) == IF Recording THEN Append(hist, h) ELSE hist
QInit == disk = {} /\ mem = {} /\ hist = <<>>
Drop(ms, s, m) == {x \in ms : x.site # s \/ x.meas # m}
Put == \E s \in Sites, m \in Names, f \in 1 .. NFs, a, b \in 0 .. MaxT :
    /\ a < b
    /\ LET x == [site |-> s, meas |-> m, fs |-> f, first |-> a, last |-> b] IN
       disk' = Drop(disk, s, m) \cup {x} /\ hist' = Note([op |-> "put", m |-> x])
    /\ UNCHANGED mem
Remove == \E x \in disk : disk' = disk \ {x} /\ hist' = Note([op |-> "remove", m |-> x]) /\ UNCHANGED mem
Load == mem # disk /\ mem' = disk /\ hist' = Note([op |-> "load"]) /\ UNCHANGED disk
QNext == Put \/ Remove \/ Load
QSpec == QInit /\ [][QNext]_qvars

\* asking agrees with itself
Laws ==
    /\ FsOf(mem) = UNION {FsOf(OfSite(mem, s)) : s \in Sites}
    /\ \A f \in 1 .. NFs : SitesWithFs(mem, f) = {s \in Sites : WithFs(OfSite(mem, s), f) # {}}
    /\ \A s \in Populated(mem) : \A o \in Populated(mem) : o \in Concurrent(mem, s) => s \in Concurrent(mem, o)
    /\ \A s \in Populated(mem) : s \notin Concurrent(mem, s)
    \* the usual comparison of ends says the same as sharing an instant
    /\ \A s, o \in Populated(mem) : s # o =>
        (o \in Concurrent(mem, s) <=> ~(SiteRange(mem, o)[2] < SiteRange(mem, s)[1]) /\ ~(SiteRange(mem, o)[1] > SiteRange(mem, s)[2]))
    /\ \A s \in Populated(mem) : First(mem) <= SiteRange(mem, s)[1] /\ SiteRange(mem, s)[2] <= Last(mem)
    /\ \A i, j \in DOMAIN FsList(mem) : i < j => FsList(mem)[i] < FsList(mem)[j]
Unique == \A x, y \in disk : x.site = y.site /\ x.meas = y.meas => x = y
\* runs to replay: loads after something changed
RECURSIVE SincePuts(_)
SincePuts(h) == IF h = <<>> \/ h[Len(h)].op = "load" THEN 0 ELSE 1 + SincePuts(SubSeq(h, 1, Len(h) - 1))
Busy == QInit /\ [][(SincePuts(hist) < 4 /\ Put) \/ (Cardinality(disk) > 3 /\ Remove) \/ (SincePuts(hist) > 2 /\ Load)]_qvars
Emit == (Recording /\ Len(hist) = Depth) => PrintT("@@CASE " \o ToJson([ops |-> hist]))
Bound == Len(hist) <= Depth /\ (Recording \/ Cardinality(disk) <= Depth)
=============================================================================
