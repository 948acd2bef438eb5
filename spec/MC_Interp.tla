------------------------------ MODULE MC_Interp ------------------------------
(* Bins with values on an uneven frequency axis, read at one frequency after *)
(* the other.                                                                *)
EXTENDS Spectra, TLC, Json
CONSTANTS Vals, Gaps, MaxBins
VARIABLES f, v, e
svars == <<f, v, e>>
SInit == f = <<2>> /\ v \in {<<a>> : a \in Vals} /\ e = 0
Bin1 == /\ Len(f) < MaxBins /\ e = 0
        /\ \E g \in Gaps, a \in Vals : f' = Append(f, f[Len(f)] + g) /\ v' = Append(v, a)
        /\ UNCHANGED e
Up == e <= f[Len(f)] /\ e' = e + 1 /\ UNCHANGED <<f, v>>
SNext == Bin1 \/ Up
SSpec == SInit /\ [][SNext]_svars
Val == AtFreq(f, v, e)
Milli3(c) == <<1000 * c[1], 1000 * c[2]>>
OnBins == \A k \in DOMAIN f : f[k] = e => Val = Milli3(v[k])
HeldEnds == /\ e <= f[1] => Val = Milli3(v[1])
            /\ e >= f[Len(f)] => Val = Milli3(v[Len(v)])
Between == LET n == Neighbours(f, e) IN
    /\ n[2] - n[1] \in {0, 1}
    /\ n[2] > n[1] => f[n[1]] < e /\ e < f[n[2]]
    /\ \A c \in {1, 2} : Val[c] >= 1000 * Min2(v[n[1]][c], v[n[2]][c]) /\ Val[c] <= 1000 * Max2(v[n[1]][c], v[n[2]][c])
\* a straight line is followed exactly
Straight == (\A k \in DOMAIN f : v[k][1] = f[k]) => (e \in f[1] .. f[Len(f)] => Val[1] = 1000 * e)
Emit == (e = 0) => PrintT("@@CASE " \o ToJson([f |-> f, v |-> v]))
MVals == {<<2, -6>>, <<4, 3>>, <<-12, 7>>}
=============================================================================
