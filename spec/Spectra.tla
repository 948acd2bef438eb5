------------------------------- MODULE Spectra -------------------------------
(***************************************************************************)
(* Spectra of windows (C11), their values at evaluation frequencies (C12)  *)
(* and smoothing along frequency (C29).                                    *)
(*                                                                         *)
(* Fixed point: samples are integers, detrended samples and spectra have   *)
(* three decimals, tapers, sines and cosines four.  Operators on sequences *)
(* count from one.                                                         *)
(***************************************************************************)
EXTENDS Base

One == 10000

\* 5-smooth numbers, to which windows are padded
RECURSIVE Smooth(_)
Smooth(m) == IF m = 1 THEN TRUE
             ELSE IF m % 2 = 0 THEN Smooth(m \div 2)
             ELSE IF m % 3 = 0 THEN Smooth(m \div 3)
             ELSE m % 5 = 0 /\ Smooth(m \div 5)
RECURSIVE FastLen(_)
FastLen(n) == IF Smooth(n) THEN n ELSE FastLen(n + 1)
NFreqs(m) == m \div 2 + 1

Milli(num, den) == (num \div den) * 1000 + ((num % den) * 1000) \div den

\* samples without their mean, or without their straight line of best fit
Detrended(x, kind) ==
    LET N == Len(x)
        S == SumSeq(x)
        T == SumSeq([j \in 1 .. N |-> (2 * j - N - 1) * x[j]])
        D == N * (N * N - 1)
    IN  CASE kind = "none" -> [j \in 1 .. N |-> 1000 * x[j]]
          [] kind = "constant" -> [j \in 1 .. N |-> Milli(N * x[j] - S, N)]
          [] kind = "linear" -> [j \in 1 .. N |-> Milli(x[j] * D - S * (N * N - 1) - 3 * T * (2 * j - N - 1), D)]

Tapered(r, w) == [j \in DOMAIN r |-> (r[j] * w[j]) \div One]

\* value k of the transform of y padded to m, times the square root of m;
\* circ is <<cos, sin>> at m equal steps of a turn
Bin(y, circ, m, k) ==
    LET at(j) == circ[(((j - 1) * k) % m) + 1] IN
    << SumSeq([j \in DOMAIN y |-> (y[j] * at(j)[1]) \div One]),
       -SumSeq([j \in DOMAIN y |-> (y[j] * at(j)[2]) \div One]) >>

Near(a, b, tol) == AbsI(a - b) <= tol
CNear(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol)

\* a table of a turn in m steps: on the circle, and turning by one step each
IsTurn(circ, m) ==
    /\ Len(circ) = m
    /\ circ[1] = <<One, 0>>
    /\ \A k \in 1 .. m : Near((circ[k][1] * circ[k][1] + circ[k][2] * circ[k][2]) \div One, One, 2)
    /\ \A k \in 1 .. m - 1 : CNear(circ[k + 1], <<(circ[k][1] * circ[2][1] - circ[k][2] * circ[2][2]) \div One,
                                                 (circ[k][1] * circ[2][2] + circ[k][2] * circ[2][1]) \div One>>, 2)

(* evaluation frequencies: bins at increasing integer frequencies *)
\* the two neighbouring bins of frequency e, and its place between them as <<num, den>>
Neighbours(f, e) ==
    IF e <= f[1] THEN <<1, 1, 0, 1>>
    ELSE IF e >= f[Len(f)] THEN <<Len(f), Len(f), 0, 1>>
    ELSE LET a == SetMax({k \in DOMAIN f : f[k] <= e}) IN
         IF f[a] = e THEN <<a, a, 0, 1>> ELSE <<a, a + 1, e - f[a], f[a + 1] - f[a]>>
\* interpolated value, with three decimals
AtFreq(f, v, e) ==
    LET n == Neighbours(f, e)
        part(c) == 1000 * v[n[1]][c] + (1000 * (v[n[2]][c] - v[n[1]][c]) * n[3]) \div n[4]
    IN  <<part(1), part(2)>>

(* smoothing *)
\* points of the uniform smoother for n frequencies, proportion as <<num, den>>
Points(prop, n) == LET L == (prop[1] * n) \div prop[2] IN IF L % 2 = 0 THEN L + 1 ELSE L
=============================================================================
