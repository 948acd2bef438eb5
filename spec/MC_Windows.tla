----------------------------- MODULE MC_Windows -----------------------------
(* Two recordings of one signal arrive sample by sample; each completes a    *)
(* window as soon as its last sample has arrived.                            *)
EXTENDS Windows, TLC, Json
CONSTANTS MaxN, Sizes, Ks, MaxR, Pair
VARIABLES size, olap, K, r, n, done
svars == <<size, olap, K, r, n, done>>
Recs == IF Pair THEN {1, 2} ELSE {1}
inc == size - olap

SInit == /\ size \in Sizes /\ K \in Ks
         /\ olap \in 1 .. size - 1
         /\ r \in [Recs -> 0 .. MaxR * K]
         /\ (Pair => r[1] <= r[2])
         /\ n = [c \in Recs |-> 0]
         /\ done = [c \in Recs |-> {}]

\* the time of the newest sample, after which windows may be complete
Arrive == \E c \in Recs :
    /\ n[c] < MaxN
    /\ n' = [n EXCEPT ![c] = @ + 1]
    /\ LET now == r[c] + n[c] * K
           \* every window of the reference grid that is over now and began with the recording or later
           G == {g \in 0 .. now \div (inc * K) : WinStart(g, inc, K) >= r[c] /\ WinEnd(g, size, inc, K) <= now}
       IN  done' = [done EXCEPT ![c] = @ \union
                {[g |-> g, from |-> FromNo(g, r[c], inc, K), start |-> WinStart(g, inc, K)] : g \in G}]
    /\ UNCHANGED <<size, olap, K, r>>
SNext == Arrive
SSpec == SInit /\ [][SNext]_svars

Numbers(c) == {w.g : w \in done[c]}
Formula == \A c \in Recs : n[c] > 0 =>
    /\ Numbers(c) = {g \in FirstWin(r[c], inc, K) .. LastWin(r[c], n[c], size, inc, K) : TRUE}
    /\ Cardinality(done[c]) = NWins(r[c], n[c], size, inc, K)
\* contents are samples that have arrived, and neighbours share exactly the overlap
Contents == \A c \in Recs : \A w \in done[c] :
    /\ w.from >= 0 /\ w.from + size <= n[c]
    /\ \A v \in done[c] : v.g = w.g + 1 => v.from = w.from + inc
\* every sample from the first window's on is in a window as soon as enough followed it
NoGaps == \A c \in Recs : done[c] # {} =>
    \A j \in 0 .. n[c] - 1 :
        (\E w \in done[c] : w.from <= j) /\ j + size <= n[c] => \E w \in done[c] : j \in w.from .. w.from + size - 1
\* equal numbers, equal times; where the samples coincide, equal samples
SameTime == Pair => \A v \in done[1], w \in done[2] : v.g = w.g =>
    /\ v.start = w.start
    /\ ((r[1] - r[2]) % K = 0) => r[1] + v.from * K = r[2] + w.from * K
\* a window of one recording that the other covers is also a window of the other
SameWindows == Pair => \A v \in done[1] :
    Inside(v.g, r[2], n[2], size, inc, K) => v.g \in Numbers(2)
Emit == (Pair \/ n[1] >= size - 1) => PrintT("@@CASE " \o ToJson([size |-> size, olap |-> olap, K |-> K, r |-> [c \in 1..2 |-> IF c \in Recs THEN r[c] ELSE -1],
    n |-> [c \in 1..2 |-> IF c \in Recs THEN n[c] ELSE 0]]))
=============================================================================
