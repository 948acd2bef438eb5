----------------------------- MODULE MC_Spectra -----------------------------
(* A window of four samples is filled one by one and transformed; bins of a  *)
(* spectrum are reduced to evaluation frequencies.                           *)
EXTENDS Spectra, TLC, Json
CONSTANTS Values, Kinds
VARIABLES x, kind, taper
svars == <<x, kind, taper>>
Turn4 == << <<One, 0>>, <<0, One>>, <<-One, 0>>, <<0, -One>> >>
Tapers == [boxcar |-> <<One, One, One, One>>, hann |-> <<0, One \div 2, One, One \div 2>>]

SInit == x = <<>> /\ kind \in Kinds /\ taper \in DOMAIN Tapers
SNext == /\ Len(x) < 4
         /\ \E v \in Values : x' = Append(x, v)
         /\ UNCHANGED <<kind, taper>>
SSpec == SInit /\ [][SNext]_svars
Full == Len(x) = 4

Y(z) == Tapered(Detrended(z, kind), Tapers[taper])
X(z) == [k \in 1 .. 3 |-> Bin(Y(z), Turn4, 4, k - 1)]
Zero == [j \in 1 .. 4 |-> 0]
\* spectra add up and scale: of the samples one by one
Linear == Full =>
    \A k \in 1 .. 3 : CNear(X(x)[k], LET part(j) == X([Zero EXCEPT ![j] = x[j]])[k] IN
        CAdd(CAdd(part(1), part(2)), CAdd(part(3), part(4))), 12)
Scales == Full => \A k \in 1 .. 3 : CNear(X([j \in 1 .. 4 |-> 3 * x[j]])[k], CScale(3, X(x)[k]), 12)
\* an orthonormal transform keeps the energy: |X0|^2 + 2 |X1|^2 + |X2|^2 = 4 sum y^2 (X carries a factor two)
Sq(c) == (c[1] \div 10) * (c[1] \div 10) + (c[2] \div 10) * (c[2] \div 10)
Energy == (Full /\ kind = "none" /\ taper = "boxcar") =>
    Sq(X(x)[1]) + 2 * Sq(X(x)[2]) + Sq(X(x)[3]) = 4 * SumSeq([j \in 1 .. 4 |-> (Y(x)[j] \div 10) * (Y(x)[j] \div 10)])
\* what detrending takes out has no spectrum
Removed == /\ (Full /\ kind # "none" /\ x[1] = x[2] /\ x[2] = x[3] /\ x[3] = x[4]) => X(x) = [k \in 1 .. 3 |-> <<0, 0>>]
           /\ (Full /\ kind = "linear" /\ x[2] - x[1] = x[3] - x[2] /\ x[3] - x[2] = x[4] - x[3]) => X(x) = [k \in 1 .. 3 |-> <<0, 0>>]
\* the ends of the axis are real
RealEnds == Full => X(x)[1][2] = 0 /\ X(x)[3][2] = 0
Lengths == \A n \in 1 .. 130 : FastLen(n) >= n /\ FastLen(n) < 2 * n + 1 /\ NFreqs(FastLen(n)) <= FastLen(n) \div 2 + 1
Emit == Full => PrintT("@@CASE " \o ToJson([x |-> x, kind |-> kind, taper |-> taper]))
ASSUME Lengths
ASSUME IsTurn(Turn4, 4)
=============================================================================
