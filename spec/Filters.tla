------------------------------- MODULE Filters -------------------------------
(***************************************************************************)
(* Low pass, high pass, band pass and notch filters (property C32).        *)
(*                                                                         *)
(* A tone is known by its warped frequency w = 1000 tan(pi f / fs); 0 is a *)
(* constant.  Gains are in thousandths: what a filter leaves of the        *)
(* amplitude of a tone; phases are not changed.  A filter is               *)
(*   [kind, order, lo, hi] with the warped frequencies of its cutoffs.     *)
(***************************************************************************)
EXTENDS Base

One == 1000
Most == 200 * One
\* x >= One to the power n, Most when it is more
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN One
               ELSE LET p == Power(x, n - 1) IN Min2(Most, (p * Min2(x, 8 * One) + One \div 2) \div One)

\* the distance of a tone from the pass band of a filter, One at its cutoffs: num / den
Above(n, d) == 8 * d <= n
Ratio(n, d) == IF d = 0 \/ Above(n, d) THEN 8 * One
               ELSE LET s == n \div 1000000 + 1 IN ((n \div s) * One + d \div (2 * s)) \div (d \div s)
\* half the amplitude at the cutoffs, the more outside it the less, and the order decides how soon
Left(p) == IF p = Most THEN 0 ELSE (One * One) \div (One + p)
GainAt(n, d, order) ==
    IF n >= d THEN Left(Power(Ratio(n, d), 2 * order)) ELSE One - Left(Power(Ratio(d, n), 2 * order))

\* warped frequencies are at most 21000
Beyond == 100000
Within(f, w) == <<AbsI(w * w - f.lo * f.hi), w * (f.hi - f.lo)>>
Gain(f, w) ==
    CASE f.kind = "low" -> GainAt(w, f.hi, f.order)
      [] f.kind = "high" -> GainAt(f.lo, w, f.order)
      [] f.kind = "band" -> LET q == Within(f, w) IN GainAt(q[1], q[2], f.order)
      \* a band reaching to the Nyquist frequency leaves what is below it
      [] f.kind = "notch" /\ f.hi >= Beyond -> GainAt(w, f.lo, f.order)
      [] f.kind = "notch" -> LET q == Within(f, w) IN GainAt(q[2], q[1], f.order)

\* frequencies as they are given, in thousandths of the sampling frequency
Nyquist == 500
Refused(kind, lo, hi, notch) ==
    CASE kind = "low" -> hi > Nyquist
      [] kind = "high" -> lo > Nyquist
      [] kind = "band" -> lo > hi \/ hi > Nyquist
      [] kind = "notch" -> notch > Nyquist
=============================================================================
