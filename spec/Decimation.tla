----------------------------- MODULE Decimation -----------------------------
(***************************************************************************)
(* Decimation plans and decimated recordings (C06, C07).                   *)
(*                                                                         *)
(* Frequencies are whole numbers here: of some unit when they are given,   *)
(* and in the default plan evaluation frequency i is a quarter of the      *)
(* sampling frequency fallen by i half octaves.                            *)
(***************************************************************************)
EXTENDS Base

RECURSIVE PowerUpTo(_, _, _)
\* the largest power of d times p that is at most m
PowerUpTo(d, p, m) == IF p > m \div d THEN p ELSE PowerUpTo(d, p * d, m)

\* cumulative factor of a level whose highest evaluation frequency is f
Factor(fs, d, f) == IF 4 * f > fs THEN 1 ELSE PowerUpTo(d, 1, fs \div (4 * f))

\* whole part of 2^(m + 1/2)
SqrtTwo == <<1, 2, 5, 11, 22, 45, 90, 181, 362, 724, 1448, 2896, 5792, 11585, 23170, 46340, 92681,
             185363, 370727, 741455, 1482910, 2965820, 5931641, 11863283, 23726566, 47453132,
             94906265, 189812531, 379625062, 759250124>>
\* whole part of 2^(e / 2): how often the highest frequency of a level, e half octaves down, fits
HalfOctaves(e) == IF e % 2 = 0 THEN IPow(2, e \div 2) ELSE SqrtTwo[(e + 1) \div 2]
DefaultFactor(d, e) == PowerUpTo(d, 1, HalfOctaves(e))

Increments(factors) == [l \in DOMAIN factors |-> IF l = 1 THEN factors[1] ELSE factors[l] \div factors[l - 1]]
RunningProduct(incs) == [l \in DOMAIN incs |-> ProdTo(incs, l)]

\* evaluation frequencies of level l (from 1) of a list with per entries to a level
LevelFreqs(freqs, per, l) == SubSeq(freqs, (l - 1) * per + 1, l * per)

RECURSIVE Lengths(_, _)
\* numbers of samples of all levels, were there no minimum
Lengths(n, incs) ==
    IF incs = <<>> THEN <<>>
    ELSE LET m == CeilDiv(n, Head(incs)) IN <<m>> \o Lengths(m, Tail(incs))

\* levels up to the first that is too short
KeptLevels(lens, least) == LET bad == {l \in DOMAIN lens : lens[l] < least} IN
    IF bad = {} THEN Len(lens) ELSE SetMin(bad) - 1
=============================================================================
