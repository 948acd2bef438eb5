------------------------------ MODULE MC_Figures ------------------------------
(* Three ways in which figures are built up step by step: windows stacked one  *)
(* at a time into spans of time, phase curves continued point by point, and    *)
(* recordings drawn one after the other on a figure.                           *)
EXTENDS Figures, TLC, Json
CONSTANTS Kinds, Lens, Offsets, Starts, Incs, N, MaxAngles, MaxDraws, Emitting
VARIABLES kind, in, k, acc
fvars == <<kind, in, k, acc>>

Mag(i) == ((i * i) % 7) + 1
Time(i) == in.start + (i - 1) * in.inc
Times == [i \in 1..in.n |-> Time(i)]
\* chans of recordings which may be drawn
Recs == << <<"a", "b">>, <<"b">>, <<"c", "a">> >>

FInit ==
    /\ kind \in Kinds /\ k = 0
    /\ CASE kind = "stack" -> /\ in \in [start : Starts, inc : Incs, n : {N}, len : Lens, off : Offsets]
                              /\ acc = [g \in Spans(Times, in.off, in.len) |-> <<0, 0>>]
         [] kind = "angle" -> in = <<>> /\ acc = <<>>
         [] kind = "draw" -> /\ in \in {<<"a", "b">>, <<"b", "a", "c">>, <<"a">>}
                             /\ acc = [fig |-> EmptyFigure(in), ops |-> <<>>]
StackOne == /\ kind = "stack" /\ k < in.n
            /\ acc' = LET g == SpanOf(Time(k + 1), in.off, in.len) IN [acc EXCEPT ![g] = <<@[1] + Mag(k + 1), @[2] + 1>>]
            /\ k' = k + 1 /\ UNCHANGED <<kind, in>>
Turn == /\ kind = "angle" /\ k < MaxAngles
        /\ \E x \in {-1, 0, 1}, y \in {-1, 0, 1} :
            /\ <<x, y>> # <<0, 0>>
            /\ in' = Append(in, <<x, y>>)
            /\ acc' = Append(acc, NextAngle(IF k = 0 THEN 0 ELSE acc[k], AngleOf(<<x, y>>)))
        /\ k' = k + 1 /\ UNCHANGED kind
DrawOne == /\ kind = "draw" /\ k < MaxDraws
           /\ \E r \in DOMAIN Recs :
                acc' = [fig |-> Draw(acc.fig, [j \in DOMAIN in |-> IF j \in RowsOf(acc.fig, Recs[r]) THEN << <<r, in[j]>> >> ELSE <<>>]),
                        ops |-> Append(acc.ops, Recs[r])]
           /\ k' = k + 1 /\ UNCHANGED <<kind, in>>
FNext == StackOne \/ Turn \/ DrawOne
FSpec == FInit /\ [][FNext]_fvars

\* every window is in exactly one span, whose times contain it
SpansPartition == kind = "stack" =>
    /\ \A i \in 1..in.n : Cardinality({g \in DOMAIN acc : i \in WindowsOf(Times, in.off, in.len, g)}) = 1
    /\ \A g \in DOMAIN acc : \A i \in WindowsOf(Times, in.off, in.len, g) :
            g * in.len + in.off <= Time(i) /\ Time(i) < (g + 1) * in.len + in.off
\* stacking one window after the other gives the sums and numbers of the windows of every span
StackIsSum == (kind = "stack" /\ k = in.n) =>
    \A g \in DOMAIN acc : LET w == WindowsOf(Times, in.off, in.len, g)
                          IN acc[g] = <<SumOver([i \in 1..in.n |-> Mag(i)], w), Cardinality(w)>>
NoneLost == kind = "stack" => SumOver([g \in 0..200 |-> IF g - 100 \in DOMAIN acc THEN acc[g - 100][2] ELSE 0], 0..200) = k
\* point by point the curve follows the angles
Continued == kind = "angle" => Follows(acc, in)
\* a row holds one channel's data only, in the order of drawing
RowsOneChannel == kind = "draw" => \A j \in DOMAIN in : \A t \in DOMAIN acc.fig.rows[j] : acc.fig.rows[j][t][2] = in[j]
DrawnKept == [][kind = "draw" => \A j \in DOMAIN in : SubSeq(acc'.fig.rows[j], 1, Len(acc.fig.rows[j])) = acc.fig.rows[j]]_fvars

Emit == Emitting =>
    /\ (kind = "stack" /\ k = 0) => PrintT("@@CASE " \o ToJson([kind |-> kind, c |-> in]))
    /\ (kind = "angle" /\ k = MaxAngles) => PrintT("@@CASE " \o ToJson([kind |-> kind, c |-> in]))
    /\ (kind = "draw" /\ k = MaxDraws) => PrintT("@@CASE " \o ToJson([kind |-> kind, c |-> [chans |-> in, ops |-> acc.ops]]))
===============================================================================
