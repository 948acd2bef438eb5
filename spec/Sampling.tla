------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* Sample numbers and times (property C01).                                *)
(*                                                                         *)
(* Time is counted in ticks: K ticks to one sample period, tick 0 is the   *)
(* time of the recording's first sample.  Hence sample i is at tick i*K    *)
(* for every sampling frequency, and a query time may fall on or between   *)
(* samples, before the first or after the last one.                        *)
(***************************************************************************)
EXTENDS Base

SampleTick(i, K) == i * K
LastTick(n, K) == (n - 1) * K

\* a time used as a start: refused after the end, clipped to the beginning
FromRefused(n, K, q) == q > LastTick(n, K)
FromSample(n, K, q) == CeilDiv(Max2(q, 0), K)

\* a time used as an end: refused before the beginning, clipped to the end
ToRefused(n, K, q) == q < 0
ToSample(n, K, q) == FloorDiv(Min2(q, LastTick(n, K)), K)

\* number of samples covered by a duration of d ticks, both ends counted
NSamplesFloor(K, d) == FloorDiv(d, K) + 1
\* a sample period is known to a tenth of a picosecond, so the time of sample n is n
\* periods after the first one to within that much per sample (femtoseconds)
MaxDrift == 200
NSamplesCeil(K, d) == CeilDiv(d, K) + 1
=============================================================================
