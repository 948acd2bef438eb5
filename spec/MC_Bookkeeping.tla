--------------------------- MODULE MC_Bookkeeping ---------------------------
(* The design: recordings with rows of numbers, read by the names of their   *)
(* channels, and the least squares solution over all rows.  The solution of  *)
(* every reachable project is that of the same recordings in a project that  *)
(* nothing was done to, times what the channels were amplified with.         *)
(* ByPlace: channels are read by their place instead of their name.          *)
EXTENDS Bookkeeping, Json
CONSTANTS Moving, NRec, NNames, AmpChans, MaxAmp, Depth, Emitting, ByPlace
VARIABLES rec, evals, fresh, hist
bvars == <<rec, evals, fresh, hist>>

Chans == <<"o1", "o2", "i1", "i2">>
Orders == << <<1, 2, 3, 4>>, <<3, 1, 4, 2>>, <<4, 3, 2, 1>> >>
\* rows of recording r: what the channels have in each window
Data(r) == CASE r = 1 -> << <<3, 1, 1, 0>>, <<-1, 2, 2, 1>>, <<0, 5, 1, -3>> >>
             [] r = 2 -> << <<1, -2, 0, 1>>, <<4, 0, 1, 1>> >>
             [] OTHER -> << <<2, 2, -1, 2>> >>
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
\* amplified; exponents are kept from 0 on here so that the numbers are whole
Factor(amp, c) == CASE c = 1 -> Pow2(amp.o1) [] c = 2 -> Pow2(amp.o2) [] OTHER -> Pow2(amp.in)
\* what is written: the columns in the order of the recording
Written(r, order, amp) == [w \in DOMAIN Data(r) |-> [k \in 1 .. 4 |-> Factor(amp, Orders[order][k]) * Data(r)[w][Orders[order][k]]]]
\* and read: column of channel c
Place(order, c) == IF ByPlace THEN c ELSE CHOOSE k \in 1 .. 4 : Orders[order][k] = c
ReadRows(r, order, amp) == [w \in DOMAIN Data(r) |-> [c \in 1 .. 4 |-> Written(r, order, amp)[w][Place(order, c)]]]

RECURSIVE RowsOf(_, _, _)
\* the rows of the measurements in the order of their names
RowsOf(rc, ev, names) == IF names = {} THEN <<>> ELSE
    LET n == CHOOSE n \in names : \A m \in names : n <= m  v == ev[n] IN
    ReadRows(v.id, v.order, v.amp) \o RowsOf(rc, ev, names \ {n})
RECURSIVE Sum2(_, _, _)
Sum2(rows, a, b) == IF rows = <<>> THEN 0 ELSE Head(rows)[a] * Head(rows)[b] + Sum2(Tail(rows), a, b)
\* the normal equations of output o: <<numerator of input 1, of input 2, denominator>>
Solve(rows, o) ==
    LET a == Sum2(rows, 3, 3)  b == Sum2(rows, 3, 4)  d == Sum2(rows, 4, 4)
        p == Sum2(rows, 3, o)  q == Sum2(rows, 4, o)
    IN << p * d - q * b, q * a - p * b, a * d - b * b >>

Fresh(k) == [name |-> k, order |-> 1, here |-> TRUE, amp |-> Unit]
BInit == /\ rec = [r \in 1 .. NRec |-> Fresh(r)] /\ evals = [n \in {} |-> 0] /\ fresh = NRec + 1 /\ hist = <<>>
Note(h) == hist' = IF Emitting THEN Append(hist, h) ELSE <<>>
DoRename == \E r \in DOMAIN rec : fresh <= NNames /\ rec' = Rename(rec, r, fresh) /\ fresh' = fresh + 1 /\ UNCHANGED evals /\ Note([op |-> "rename", r |-> r, name |-> fresh])
DoReorder == \E r \in Moving, k \in 1 .. 2 : k # rec[r].order /\ rec' = Reorder(rec, r, k) /\ UNCHANGED <<evals, fresh>> /\ Note([op |-> "reorder", r |-> r, order |-> k])
DoToggle == \E r \in DOMAIN rec : Here(Toggle(rec, r)) # {} /\ rec' = Toggle(rec, r) /\ UNCHANGED <<evals, fresh>> /\ Note([op |-> "toggle", r |-> r])
DoAmplify == \E c \in AmpChans, d \in {-1, 1} :
    /\ rec[1].amp[c] + d \in 0 .. MaxAmp /\ rec' = Amplify(rec, c, d) /\ UNCHANGED <<evals, fresh>> /\ Note([op |-> "amplify", chan |-> c, d |-> d])
DoProcess == \E r \in Here(rec) :
    /\ IF rec[r].name \in DOMAIN evals THEN evals[rec[r].name].amp # rec[r].amp \/ evals[rec[r].name].order # rec[r].order ELSE TRUE
    /\ evals' = (rec[r].name :> [id |-> r, amp |-> rec[r].amp, order |-> rec[r].order]) @@ evals
    /\ UNCHANGED <<rec, fresh>> /\ Note([op |-> "process", r |-> r])
\* elsewhere: the folder of the project is moved; anew: written again at another time, nothing processed yet
DoMove == Emitting /\ UNCHANGED <<rec, evals, fresh>> /\ Note([op |-> "move"])
DoAnew == evals # [n \in {} |-> 0] /\ evals' = [n \in {} |-> 0] /\ UNCHANGED <<rec, fresh>> /\ Note([op |-> "anew"])
DoOther == Emitting /\ UNCHANGED <<rec, evals, fresh>> /\ Note([op |-> "other"])
DoSolve == Ready(rec, evals) /\ Emitting /\ (hist # <<>> /\ hist[Len(hist)].op # "solve") /\ UNCHANGED <<rec, evals, fresh>> /\ Note([op |-> "solve"])
BNext == DoRename \/ DoReorder \/ DoToggle \/ DoAmplify \/ DoProcess \/ DoMove \/ DoAnew \/ DoOther \/ DoSolve
BSpec == BInit /\ [][BNext]_bvars
\* for the runs that are replayed: what is not processed is processed soon, what can be solved mostly is
Missing == \E r \in Here(rec) : IF rec[r].name \in DOMAIN evals THEN evals[rec[r].name].amp # rec[r].amp ELSE TRUE
RichNext == DoProcess \/ DoSolve \/ (~Missing /\ (DoRename \/ DoReorder \/ DoToggle \/ DoAmplify \/ DoMove \/ DoOther)) \/ (Len(hist) > 8 /\ ~Missing /\ DoAnew)
            \/ (Len(hist) % 4 = 1 /\ (DoReorder \/ DoAmplify \/ DoToggle))
RichSpec == BInit /\ [][RichNext]_bvars

Base0(ids) == RowsOf(rec, [n \in ids |-> [id |-> n, amp |-> Unit, order |-> 1]], ids)
\* z' = z * 2^(o - in), without division: num' * den = num * den' * 2^o / 2^in
SameUpToAmplification == Ready(rec, evals) =>
    LET names == {rec[r].name : r \in Here(rec)}
        rows == RowsOf(rec, evals, names)
        base == Base0(Made(rec, evals))
        a == (CHOOSE v \in Evals(rec, evals) : TRUE).amp IN
    \A o \in 1 .. 2 : \A i \in 1 .. 2 :
        Solve(rows, o)[i] * Solve(base, o)[3] * Pow2(a.in) = Solve(base, o)[i] * Solve(rows, o)[3] * Factor(a, o)
ExponentsOfSolution == Ready(rec, evals) => Exponents(rec, evals)[1][1] = (CHOOSE v \in Evals(rec, evals) : TRUE).amp.o1 - (CHOOSE v \in Evals(rec, evals) : TRUE).amp.in
MadeOfWhatIsHere == Ready(rec, evals) => Made(rec, evals) = Here(rec)
Bound == Len(hist) <= Depth
Emit == (Emitting /\ Len(hist) = Depth) => PrintT("@@CASE " \o ToJson([ops |-> hist]))
=============================================================================
