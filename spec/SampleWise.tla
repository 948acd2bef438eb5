----------------------------- MODULE SampleWise ------------------------------
(***************************************************************************)
(* Processing of single samples of time data (property C24).               *)
(*                                                                         *)
(* A channel is a sequence of integers; Gap is a missing sample.  Numbers  *)
(* an operation works with are in quarters.                                *)
(***************************************************************************)
EXTENDS Base

Gap == -2000000033
Missing(x) == {i \in DOMAIN x : x[i] = Gap}
Present(x) == DOMAIN x \ Missing(x)

\* gaps are closed by straight lines between the nearest samples there are,
\* and by the nearest one at the ends
Fill(x) == [i \in DOMAIN x |->
    IF x[i] # Gap THEN x[i]
    ELSE LET L == {j \in Present(x) : j < i}  R == {j \in Present(x) : j > i} IN
         IF L = {} THEN x[SetMin(R)]
         ELSE IF R = {} THEN x[SetMax(L)]
         ELSE LET a == SetMax(L)  b == SetMin(R) IN x[a] + ((x[b] - x[a]) * (i - a)) \div (b - a)]

Mean(x) == SumSeq(x) \div Len(x)
LessMean(x) == [i \in DOMAIN x |-> x[i] - Mean(x)]

\* v quarters, in units of which there are `unit' to one
Plus(x, v, unit) == [i \in DOMAIN x |-> IF x[i] = Gap THEN Gap ELSE x[i] + (v * unit) \div 4]
Times(x, v) == [i \in DOMAIN x |-> IF x[i] = Gap THEN Gap ELSE (x[i] * v) \div 4]

Reverse(x) == [i \in DOMAIN x |-> x[Len(x) + 1 - i]]
Fn(f, x, unit) ==
    CASE f = "half" -> [i \in DOMAIN x |-> IF x[i] = Gap THEN Gap ELSE x[i] \div 2]
      [] f = "square" -> [i \in DOMAIN x |-> IF x[i] = Gap THEN Gap ELSE (x[i] * x[i]) \div unit]
      [] f = "flip" -> Reverse(x)
      [] f = "less_first" -> [i \in DOMAIN x |-> IF x[i] = Gap \/ x[1] = Gap THEN Gap ELSE x[i] - x[1]]

\* an operation [op, chans, vals, fn] on the channel named c: chans are the channels
\* it names (channels the data does not have among them), vals and fn are in step with them
\* all: one value for every channel
Named(o, c) == {k \in DOMAIN o.chans : o.chans[k] = c}
Designated(o, c) == o.all \/ Named(o, c) # {}
Which(o, c) == IF o.all THEN 1 ELSE SetMin(Named(o, c))
Result(o, c, x, unit) ==
    IF ~Designated(o, c) THEN x
    ELSE CASE o.op = "fill" -> Fill(x)
           [] o.op = "mean" -> LessMean(x)
           [] o.op = "add" -> Plus(x, o.vals[Which(o, c)], unit)
           [] o.op = "mult" -> Times(x, o.vals[Which(o, c)])
           [] o.op = "apply" -> Fn(o.fns[Which(o, c)], x, unit)
=============================================================================
