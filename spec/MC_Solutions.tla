---------------------------- MODULE MC_Solutions -----------------------------
(* Solutions are computed and fetched over a set of addresses.  The abstract *)
(* store and the files of the implementation stay in step as long as no two  *)
(* addresses share a file.                                                   *)
EXTENDS Solutions, Json
CONSTANTS Sites, Cfgs, Fss, Tfs, Posts, MaxSol, Depth, Recording
VARIABLES store, files, n, hist
svars == <<store, files, n, hist>>
\* <<name, variation>> of the transfer functions
Plain == {<<"impedancetensor", "default">>, <<"tipper", "default">>}
PlainMore == Plain \union {<<"impedancetensor", "v2">>, <<"transferfunction", "">>}
Addresses == {[site |-> s, cfg |-> c, fs |-> f, tf |-> t[1], var |-> t[2], post |-> p] : s \in Sites, c \in Cfgs, f \in Fss, t \in Tfs, p \in Posts}

SInit == store = Empty /\ files = Empty /\ n = 0 /\ hist = <<>>
Compute(a) ==
    /\ n < MaxSol
    /\ n' = n + 1
    /\ store' = AfterCompute(store, a, n + 1)
    /\ files' = AfterCompute(files, FileOf(a), n + 1)
    /\ hist' = IF Recording THEN Append(hist, a) ELSE hist
SNext == \E a \in Addresses : Compute(a)
SSpec == SInit /\ [][SNext]_svars

\* what the implementation finds is the last solution computed at the address, or an error
FoundAgain == \A a \in Addresses : Found(files, FileOf(a)) = Found(store, a)
LastWins == [][\A a \in Addresses : Found(store', a) # Found(store, a) => Found(store', a) = n']_svars
OneAtATime == [][Cardinality({a \in Addresses : Found(store', a) # Found(store, a)}) = 1]_svars
Emit == (Recording /\ Len(hist) = Depth) => PrintT("@@CASE " \o ToJson([ops |-> hist]))

\* the naming of files is ambiguous: a known finding
A0 == [site |-> "s", cfg |-> "c", fs |-> "1", tf |-> "t", var |-> "a", post |-> "b"]
ASSUME FileOf(A0) = FileOf([A0 EXCEPT !.var = "a_b", !.post = "-"])
=============================================================================
