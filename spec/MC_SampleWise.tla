--------------------------- MODULE MC_SampleWise ----------------------------
(* Recordings of two channels, one operation after the other.                *)
EXTENDS SampleWise, TLC, Json
CONSTANTS Vals, N, Seconds, Depth, Recording
VARIABLES data, hist, first, last
wvars == <<data, hist, first, last>>
Names == <<"A", "B">>
Patterns == {x \in [1 .. N -> Vals \cup {Gap}] : Present(x) # {}}
Others == {[i \in 1 .. N |-> IF i \in s THEN Gap ELSE 60 * i] : s \in Seconds}
Op(op, all, chans, vals, fns) == [op |-> op, all |-> all, chans |-> chans, vals |-> vals, fns |-> fns]
None == Op("none", FALSE, <<>>, <<>>, <<>>)
WInit == data \in {<<x, y>> : x \in Patterns, y \in Others} /\ hist = <<>> /\ first = data /\ last = None

Lists == {<<"A">>, <<"B", "Z">>, <<"B", "A">>, <<"Z">>}
Numbers == {6, -8, 0}
Ops == {Op("fill", TRUE, <<>>, <<>>, <<>>), Op("mean", TRUE, <<>>, <<>>, <<>>)}
    \cup {Op(o, TRUE, <<>>, <<v>>, <<>>) : o \in {"add", "mult"}, v \in Numbers}
    \cup {Op(o, FALSE, l, <<v, 4>>, <<>>) : o \in {"add", "mult"}, l \in Lists, v \in Numbers}
    \cup {Op("apply", FALSE, l, <<>>, <<f, g>>) : l \in Lists, f \in {"half", "flip", "less_first"}, g \in {"half", "square"}}
NoGaps == \A c \in DOMAIN data : Missing(data[c]) = {}
Do(o) ==
    /\ o.op = "mean" => NoGaps
    /\ o.op = "fill" => \A c \in DOMAIN data : Present(data[c]) # {}
    /\ \A c \in DOMAIN data : \A i \in Present(data[c]) : AbsI(data[c][i]) <= 20000
    /\ data' = [c \in DOMAIN data |-> Result(o, Names[c], data[c], 4)]
    /\ last' = o
    /\ hist' = IF Recording THEN Append(hist, o) ELSE Append(hist, "")
    /\ UNCHANGED first
WNext == Len(hist) < Depth /\ \E o \in Ops : Do(o)
WSpec == WInit /\ [][WNext]_wvars

\* laws
FillLaws == \A c \in DOMAIN data : LET x == data[c]  y == Fill(x) IN Present(x) # {} =>
    /\ Missing(y) = {} /\ \A i \in Present(x) : y[i] = x[i]
    /\ Fill(y) = y
    /\ Fill(Reverse(x)) = Reverse(y) \/ \E i \in DOMAIN x : x[i] % 60 # 0
    /\ \A i \in DOMAIN y : \E j, k \in Present(x) : y[j] <= y[i] /\ y[i] <= y[k]
\* a straight line with holes is closed to the straight line
Line == LET x == first[2] IN (1 \in Present(x) /\ N \in Present(x)) => Fill(x) = [i \in 1 .. N |-> 60 * i]
MeanLaws == \A c \in DOMAIN data : LET x == data[c] IN Missing(x) = {} =>
    LET s == SumSeq(LessMean(x)) IN 0 <= s /\ s < N
UndesignatedKept == [][\A c \in DOMAIN data : ~Designated(last', Names[c]) => data'[c] = data[c]]_wvars
\* a channel's result does not depend on what the other channel holds
Alone == [][\A c \in DOMAIN data : data'[c] = Result(last', Names[c], data[c], 4)]_wvars
GapsKept == [][last'.op # "fill" => \A c \in DOMAIN data :
                  (Missing(data[c]) = {}) => (Missing(data'[c]) = {})]_wvars
Emit == (Recording /\ Len(hist) = Depth) => PrintT("@@CASE " \o ToJson([first |-> first, ops |-> hist]))
V3 == {-120, 0, 60}
V2 == {-120, 60}
Three == {{}, {2}, {1, 3}}
One == {{}, {2}}
Two == {{2}, {1, 3}, {3, 4}}
=============================================================================
