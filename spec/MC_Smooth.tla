------------------------------ MODULE MC_Smooth ------------------------------
(* A spectrum that arrives frequency by frequency, and its moving average.   *)
EXTENDS Spectra, TLC, Json
CONSTANTS MaxFreqs, Props
VARIABLES n, prop
svars == <<n, prop>>
SInit == n = 1 /\ prop \in Props
SNext == n < MaxFreqs /\ n' = n + 1 /\ UNCHANGED prop
SSpec == SInit /\ [][SNext]_svars
L == Points(prop, n)
h == (L - 1) \div 2
\* reflected index, as for ... c b a | a b c ... x y z | z y x
Refl(k) == LET m == (k - 1) % (2 * n) IN IF m < n THEN m + 1 ELSE 2 * n - m
Weight(k, j) == Cardinality({d \in -h .. h : Refl(k + d) = j})
OddPoints == L % 2 = 1 /\ L >= 1 /\ L <= (prop[1] * n) \div prop[2] + 1
SumOne == \A k \in 1 .. n : SumSeq([j \in 1 .. n |-> Weight(k, j)]) = L
Symmetric == \A k, j \in 1 .. n : Weight(k, j) = Weight(j, k)
Local == \A k, j \in 1 .. n : AbsI(k - j) > h => Weight(k, j) = 0
Emit == PrintT("@@CASE " \o ToJson([n |-> n, prop |-> prop]))
MProps == {<<1, 8>>, <<1, 4>>, <<1, 2>>, <<3, 8>>, <<1, 16>>, <<1, 1>>}
=============================================================================
