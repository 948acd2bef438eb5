--------------------------- MODULE MC_Calibration ---------------------------
(* Channels are calibrated in turn: readers are tried one by one.  Files may *)
(* be broken or missing.                                                     *)
EXTENDS Calibration, TLC, Json
CONSTANTS Chans, Readers
VARIABLES file, selected, todo, r, used, log
svars == <<file, selected, todo, r, used, log>>
\* file[c][k]: state of the file reader k looks for channel c
SInit == /\ file \in [Chans -> [1 .. Readers -> {"good", "broken", "missing"}]]
         /\ selected \in SUBSET Chans
         /\ todo = selected /\ r = 0 /\ used = [c \in Chans |-> 0] /\ log = <<>>
Current == SetMin(todo)
Try == /\ todo # {} /\ r < Readers
       /\ log' = Append(log, <<Current, r + 1>>)
       /\ IF file[Current][r + 1] = "good"
          THEN used' = [used EXCEPT ![Current] = r + 1] /\ todo' = todo \ {Current} /\ r' = 0
          ELSE UNCHANGED <<used, todo>> /\ r' = r + 1
       /\ UNCHANGED <<file, selected>>
GiveUp == /\ todo # {} /\ r = Readers
          /\ todo' = todo \ {Current} /\ r' = 0
          /\ UNCHANGED <<file, selected, used, log>>
SNext == Try \/ GiveUp
SSpec == SInit /\ [][SNext]_svars
First(c) == LET g == {k \in 1 .. Readers : file[c][k] = "good"} IN IF g = {} THEN 0 ELSE SetMin(g)
Done == todo = {}
\* the outcome of a channel depends on its own files only
Right == Done => \A c \in Chans : used[c] = IF c \in selected THEN First(c) ELSE 0
\* no reader is tried twice, and none after one that succeeded
NoMore == /\ IsInjective(log)
          /\ \A k \in DOMAIN log : used[log[k][1]] # 0 => log[k][2] <= used[log[k][1]]
\* the same choice as the formula the traces are judged by
Files(c) == LET S == {k \in 1 .. Readers : file[c][k] # "missing"} IN
    [k \in 1 .. Cardinality(S) |-> LET x == SortedSeq(S)[k] IN
        [name |-> "f" \o ToString(x) \o "s", fmt |-> IF file[c][x] = "good" THEN "t" ELSE "none"]]
TheReaders == [k \in 1 .. Readers |-> [parts |-> <<"f", ToString(k), "$sensor">>, fmt |-> "t", ext |-> ""]]
Agrees == Done => \A c \in selected :
    LET k == Chosen(TheReaders, Files(c), "s", "1") IN
    IF used[c] = 0 THEN k = 0 ELSE Files(c)[k].name = "f" \o ToString(used[c]) \o "s"
Emit == Done => PrintT("@@CASE " \o ToJson([file |-> [c \in Chans |-> file[c]], selected |-> SortedSeq(selected)]))

\* responses: on the calibrated frequencies themselves, between and beyond them
Cal == [f |-> <<10, 14, 20>>, mag |-> <<2, 6, 3>>, phs |-> <<0, 12, -12>>]
ASSUME \A e \in 0 .. 30 : LET m == Magnitude(Cal, e) IN m[1] >= 2 * m[2] /\ m[1] <= 6 * m[2]
ASSUME Magnitude(Cal, 3) = <<2, 1>> /\ Magnitude(Cal, 25) = <<3, 1>> /\ Phase(Cal, 25) = -12 /\ Phase(Cal, 12) = 6
ASSUME \A k \in 1 .. 3 : REq(Magnitude(Cal, Cal.f[k]), <<Cal.mag[k], 1>>)
ASSUME IsTurn(Turn48, 48)
ASSUME DividedBy(<<500, 0>>, <<1, 0>>, Cal, 10) /\ DividedBy(<<0, -1000>>, <<6, 0>>, Cal, 14)
ASSUME ~DividedBy(<<0, 1000>>, <<6, 0>>, Cal, 14)
=============================================================================
