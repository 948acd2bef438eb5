------------------------------- MODULE Windows -------------------------------
(***************************************************************************)
(* Windows of a decimation level (C08, C09, C10).                          *)
(*                                                                         *)
(* Time is in ticks from the reference time, K ticks to a sample period of *)
(* the level.  The level's samples are at r, r + K, ..., r + (n - 1) K.    *)
(* Window g starts g increments after the reference time and covers size   *)
(* samples.                                                                *)
(***************************************************************************)
EXTENDS Base

WinStart(g, inc, K) == g * inc * K
WinEnd(g, size, inc, K) == g * inc * K + (size - 1) * K
Inside(g, r, n, size, inc, K) ==
    /\ WinStart(g, inc, K) >= r
    /\ WinEnd(g, size, inc, K) <= r + (n - 1) * K

FirstWin(r, inc, K) == CeilDiv(r, inc * K)
LastWin(r, n, size, inc, K) == FloorDiv(r + (n - size) * K, inc * K)
NWins(r, n, size, inc, K) == Max2(0, LastWin(r, n, size, inc, K) - FirstWin(r, inc, K) + 1)

\* number of the sample at or immediately before the start of window g
FromNo(g, r, inc, K) == FloorDiv(WinStart(g, inc, K) - r, K)

\* levels that are windowed: up to the first with too few windows
WindowedLevels(counts, least) == LET bad == {v \in DOMAIN counts : counts[v] < least} IN
    IF bad = {} THEN Len(counts) ELSE SetMin(bad) - 1

(* set-up, with proportions and sampling frequencies as <<num, den>> *)
WinSize(fs, factor, least) == Max2(fs[1] \div (fs[2] * factor), least)
Overlap(size, prop, least) == Max2((size * prop[1]) \div prop[2], least)
\* n / ((1 - prop) * target)
TargetSize(n, prop, target, least) == Max2((n * prop[2]) \div ((prop[2] - prop[1]) * target), least)
TargetOverlap(size, prop) == (size * prop[1]) \div prop[2]
=============================================================================
