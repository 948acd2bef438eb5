----------------------------- MODULE MC_Filters ------------------------------
(* Tones of all frequencies through one filter after the other.              *)
EXTENDS Filters, TLC, Json
CONSTANTS Cuts, Orders, Tones, Depth, Recording
VARIABLES left, used, hist
fvars == <<left, used, hist>>

Filter(kind, lo, hi, n) == [kind |-> kind, order |-> n, lo |-> lo, hi |-> hi]
All == {Filter("low", 0, c, n) : c \in Cuts, n \in Orders} \cup {Filter("high", c, 0, n) : c \in Cuts, n \in Orders}
    \cup {Filter(k, c, d, n) : k \in {"band", "notch"}, c \in Cuts, d \in Cuts, n \in Orders}
Filters2 == {f \in All : f.kind \in {"band", "notch"} => 5 * f.lo <= 4 * f.hi}
FInit == left = [w \in Tones |-> One] /\ used = <<>> /\ hist = <<>>
Run(f) ==
    /\ left' = [w \in Tones |-> (left[w] * Gain(f, w)) \div One]
    /\ used' = <<f>> /\ hist' = Append(hist, f)
FNext == Len(hist) < Depth /\ \E f \in Filters2 : Run(f)
FSpec == FInit /\ [][FNext]_fvars

Between(a, b, x) == a <= x /\ x <= b
InRange == \A w \in Tones : Between(0, One, left[w])
NeverMore == [][\A w \in Tones : left'[w] <= left[w]]_fvars
\* passes inside, removes outside, halves at the cutoffs
Laws == \A f \in Range(used) : \A w \in Tones :
    /\ f.kind = "low" => /\ (2 * w <= f.hi /\ f.order >= 4 => Gain(f, w) >= 990)
                         /\ (w >= 2 * f.hi /\ f.order >= 4 => Gain(f, w) <= 10)
                         /\ Between(490, 510, Gain(f, f.hi)) /\ Gain(f, 0) = One
    /\ f.kind = "high" => /\ (w >= 2 * f.lo /\ f.order >= 4 => Gain(f, w) >= 990)
                          /\ (2 * w <= f.lo /\ f.order >= 4 => Gain(f, w) <= 10)
                          /\ Between(490, 510, Gain(f, f.lo)) /\ Gain(f, 0) = 0
    /\ f.kind \in {"band", "notch"} => Between(485, 515, Gain(f, f.lo)) /\ Between(485, 515, Gain(f, f.hi))
    \* what the opposite filter leaves is what this one takes
    /\ f.kind = "band" => Between(One - 5, One + 5, Gain(f, w) + Gain([f EXCEPT !.kind = "notch"], w))
    /\ f.kind = "low" => Between(One - 5, One + 5, Gain(f, w) + Gain(Filter("high", f.hi, 0, f.order), w))
\* monotone, and steeper with the order
Shape == \A f \in Range(used) : f.kind = "low" => \A v, w \in Tones :
    /\ v <= w => Gain(f, w) <= Gain(f, v)
    /\ LET g == [f EXCEPT !.order = @ + 2] IN IF w <= f.hi THEN Gain(g, w) >= Gain(f, w) - 1 ELSE Gain(g, w) <= Gain(f, w) + 1
\* the order of filters does not matter
Commute == \A f \in Range(used) : \A g \in Filters2 : \A w \in Tones :
    AbsI((((left[w] * Gain(f, w)) \div One) * Gain(g, w)) \div One - (((left[w] * Gain(g, w)) \div One) * Gain(f, w)) \div One) <= 3
Emit == (Recording /\ Len(hist) = Depth) => PrintT("@@CASE " \o ToJson([f |-> hist]))
SomeTones == {0, 20, 60, 130, 250, 333, 500, 800, 1000, 1500, 2400, 4000, 6300}
FewCuts == {160, 700}
SomeCuts == {60, 160, 400, 700, 1000, 2000}
=============================================================================
