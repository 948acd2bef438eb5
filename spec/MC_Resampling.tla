--------------------------- MODULE MC_Resampling ----------------------------
(* One operation on the time axis after the other.                           *)
EXTENDS Resampling, TLC, Json
CONSTANTS Ns, Ratios, Factors, Ks, Depth, Recording
VARIABLES n0, ax, hist
avars == <<n0, ax, hist>>
Rec(h) == Append(hist, IF Recording THEN h ELSE "")
AInit == n0 \in Ns /\ ax = Original(n0) /\ hist = <<>>
Small == ax.num * ax.den <= 2000 /\ ax.off[2] <= 400
Resample == \E r \in Ratios : /\ ax' = Resampled(ax, r[1], r[2]) /\ hist' = Rec([op |-> "resample", a |-> r[1], b |-> r[2]])
DecimateBy == \E f \in Factors, m \in {2, 3, 6} : /\ ax' = Decimated(ax, f) /\ hist' = Rec([op |-> "decimate", a |-> f, b |-> m])
Shift == \E k \in Ks : \E a \in 1 .. k + 1 :
    /\ ax' = IF ShiftRefused(a, k) THEN ax ELSE Shifted(ax, a, k)
    /\ hist' = Rec([op |-> "shift", a |-> a, b |-> k])
ANext == Len(hist) < Depth /\ Small /\ (Resample \/ DecimateBy \/ Shift) /\ ax'.n >= 2 /\ UNCHANGED n0
ASpec == AInit /\ [][ANext]_avars

Ordered == 0 <= ax.off[1] /\ ax.n >= 1
\* samples stay inside the time covered before: from the first sample to the end of
\* the sample period of the last one
Span(x) == Reduced(RAdd(LastTime(x), <<x.num, x.den>>))
Inside == [][RLe(LastTime(ax'), Span(ax)) /\ RLe(ax.off, ax'.off)]_avars
\* nothing more fits into that time
Complete == [][ax'.off = ax.off => RLe(Span(ax), Span(ax'))]_avars
\* a shift puts every sample strictly between two old ones
Between == [][(ax'.n = ax.n - 1 /\ ax'.num * ax.den = ax.num * ax'.den /\ ax'.off # ax.off) =>
    \A i \in {0, ax'.n - 1} : /\ RLe(TimeOf(ax, i), TimeOf(ax', i)) /\ ~REq(TimeOf(ax, i), TimeOf(ax', i))
                              /\ RLe(TimeOf(ax', i), TimeOf(ax, i + 1)) /\ ~REq(TimeOf(ax', i), TimeOf(ax, i + 1))]_avars
\* decimating in steps is decimating at once
ByParts == \A f \in Factors : \A m \in {2, 3, 6} :
    LET st == Steps(f, m) IN
    /\ GoodSteps(st, f, m)
    /\ LET RECURSIVE Go(_, _)
           Go(a, s) == IF s = <<>> THEN a ELSE Go(Decimated(a, Head(s)), Tail(s))
       IN  Go(ax, st) = Decimated(ax, f)
Emit == (Recording /\ Len(hist) = Depth) => PrintT("@@CASE " \o ToJson([n |-> n0, ops |-> hist]))
R1 == {<<1, 2>>, <<2, 1>>, <<2, 3>>, <<5, 4>>, <<1, 1>>}
=============================================================================
