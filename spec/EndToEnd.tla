------------------------------ MODULE EndToEnd -------------------------------
(***************************************************************************)
(* From recordings to the transfer function in them (property C31).        *)
(*                                                                         *)
(* The outputs of a recording are fixed combinations of its inputs.  Every *)
(* step on the way treats the channels alike, or multiplies one by a       *)
(* number of its own; so what is found at the end is that combination,     *)
(* times the numbers the channels were multiplied with.                    *)
(*                                                                         *)
(* Z: for every output a sequence with one complex number per input;       *)
(* gains of the channels are complex too.                                  *)
(***************************************************************************)
EXTENDS Base

RECURSIVE CSumUpTo(_, _)
CSumUpTo(f, n) == IF n = 0 THEN <<0, 0>> ELSE CAdd(f[n], CSumUpTo(f, n - 1))
CSum(f) == CSumUpTo(f, Len(f))
RECURSIVE CProdUpTo(_, _)
CProdUpTo(f, n) == IF n = 0 THEN <<1, 0>> ELSE CMul(f[n], CProdUpTo(f, n - 1))
CProd(f) == CProdUpTo(f, Len(f))

\* ---- steps on one channel; all of them add up what is in the samples
LessMean(x) == [k \in DOMAIN x |-> Len(x) * x[k] - SumSeq(x)]
Steps(x) == [k \in 1 .. Len(x) - 1 |-> x[k + 1] - x[k]]
\* low pass and every second sample
Halved(x) == [k \in 1 .. Len(x) \div 2 |-> x[2 * k - 1] + x[2 * k]]
Amplified(x, g) == [k \in DOMAIN x |-> g * x[k]]
\* window k of size 4, two samples in common with its neighbours
NWins(n) == IF n < 4 THEN 0 ELSE ((n - 4) \div 2) + 1
Window(x, k) == [j \in 1 .. 4 |-> x[2 * (k - 1) + j]]
\* the four point transform: bins 0, 1 and 2
Bins(w) == << <<w[1] + w[2] + w[3] + w[4], 0>>, <<w[1] - w[3], w[4] - w[2]>>, <<w[1] - w[2] + w[3] - w[4], 0>> >>
\* between bins 1 and 2, twice
Between(b) == CAdd(b[2], b[3])

\* ---- the relation: out / gout = sum of Z in / gin, without division
\* others(k): the gains of the inputs but the k-th
Others(g, k) == CProd([j \in DOMAIN g |-> IF j = k THEN <<1, 0>> ELSE g[j]])
Related(out, gout, inp, gin, z) ==
    CMul(out, CProd(gin)) = CMul(gout, CSum([k \in DOMAIN inp |-> CMul(z[k], CMul(inp[k], Others(gin, k)))]))

\* what is to be found for output o and input k: num / den
Num(z, mo, ri) == CMul(z, CMul(mo, ri))
Den(mi, ro) == CMul(mi, ro)
=============================================================================
