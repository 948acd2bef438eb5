----------------------------- MODULE Resampling ------------------------------
(***************************************************************************)
(* Processing that changes the time axis: resampling, decimating and       *)
(* shifting (property C25).                                                *)
(*                                                                         *)
(* An axis [n, num, den, off]: n samples, num/den sample periods of the    *)
(* original recording apart, the first one off = <<a, b>> (a/b original    *)
(* sample periods) after the first sample of the original recording.       *)
(***************************************************************************)
EXTENDS Base

Axis(n, num, den, off) == [n |-> n, num |-> num, den |-> den, off |-> off]
Original(n) == Axis(n, 1, 1, <<0, 1>>)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduced(r) == LET g == Gcd(AbsI(r[1]), r[2]) IN <<r[1] \div g, r[2] \div g>>
Step(num, den) == LET r == Reduced(<<num, den>>) IN r

\* time of sample i (0-based) and of the last sample, in original sample periods
TimeOf(ax, i) == Reduced(RAdd(ax.off, <<i * ax.num, ax.den>>))
LastTime(ax) == TimeOf(ax, ax.n - 1)

\* to up/down times the rate: as many new sample periods as begin before the end of the last one
Resampled(ax, up, down) ==
    LET s == Step(ax.num * down, ax.den * up) IN
    Axis(CeilDiv(ax.n * up, down), s[1], s[2], ax.off)

Decimated(ax, factor) == Resampled(ax, 1, factor)

\* by a/b of a sample period
ShiftRefused(a, b) == a >= b
Shifted(ax, a, b) ==
    Axis(ax.n - 1, ax.num, ax.den, Reduced(RAdd(ax.off, <<a * ax.num, b * ax.den>>)))
\* the values after a shift: n - 1 of them, straight between neighbours
\* (times b, so that they are whole)
ShiftedValues(x, a, b) == [i \in 1 .. Len(x) - 1 |-> b * x[i] + (x[i + 1] - x[i]) * a]

\* splitting a factor into steps
IsPrime(p) == p > 1 /\ \A d \in 2 .. (p - 1) : p % d # 0
PrimesOf(f) == {p \in 2 .. f : f % p = 0 /\ IsPrime(p)}
\* a list of single steps does what is asked: their product is the factor and
\* none is above the largest allowed, except where a prime of the factor is
GoodSteps(steps, factor, largest) ==
    /\ ProdSeq(steps) = factor
    /\ \A k \in DOMAIN steps : steps[k] <= largest \/ steps[k] \in PrimesOf(factor)
\* one way to find it: primes in turn, multiplied up while they are small enough
RECURSIVE PrimeList(_)
PrimeList(f) == IF f = 1 THEN <<>> ELSE LET p == SetMin(PrimesOf(f)) IN <<p>> \o PrimeList(f \div p)
RECURSIVE Grouped(_, _, _)
Grouped(primes, cur, largest) ==
    IF primes = <<>> THEN <<cur>>
    ELSE IF cur * Head(primes) > largest THEN <<cur>> \o Grouped(Tail(primes), Head(primes), largest)
    ELSE Grouped(Tail(primes), cur * Head(primes), largest)
Steps(f, largest) == IF f <= largest THEN <<f>> ELSE Grouped(PrimeList(f), 1, largest)
=============================================================================
