---------------------------- MODULE MC_EndToEnd -----------------------------
(* Small recordings of two inputs and one output taken through the steps in  *)
(* any order the processing allows: time processors, decimation, windows,    *)
(* transform, evaluation frequency, calibration, gathering of two sites that *)
(* did not record at the same time, regression.                              *)
EXTENDS EndToEnd, TLC
CONSTANTS Vals, ZVals, N, Late, MaxOps, Slip
VARIABLES stage, inp, out, z, gin, gout, ops, base
evars == <<stage, inp, out, z, gin, gout, ops, base>>

Real(x) == <<x, 0>>
\* the second input is fixed so that the number of recordings stays small
Second(n) == [k \in 1 .. n |-> IF k % 3 = 0 THEN 1 ELSE (k % 2) * 2 - k]
EInit ==
    /\ \E x \in [1 .. N -> Vals] : inp = <<x, Second(N)>>
    /\ z \in ZVals \X ZVals
    /\ base \in Late                     \* the output's site starts this many samples later
    /\ out = [k \in 1 .. N - base |-> z[1] * inp[1][k + base] + z[2] * inp[2][k + base]]
    /\ gin = <<Real(1), Real(1)>> /\ gout = Real(1)
    /\ stage = "time" /\ ops = 0

\* steps that look at a whole recording need the sites to have the same one
Time ==
    /\ stage = "time" /\ ops < MaxOps /\ ops' = ops + 1
    /\ \/ /\ base = 0 /\ Len(out) >= 8
          /\ \E f \in {"mean", "steps", "halved"} :
                LET F(x) == CASE f = "mean" -> LessMean(x) [] f = "steps" -> Steps(x) [] f = "halved" -> Halved(x) IN
                inp' = [k \in 1 .. 2 |-> F(inp[k])] /\ out' = F(out)
          /\ UNCHANGED <<gin, gout>>
       \/ \E g \in {-2, 3} :
            \/ inp' = [inp EXCEPT ![2] = Amplified(@, g)] /\ gin' = [gin EXCEPT ![2] = CScale(g, @)] /\ UNCHANGED <<out, gout>>
            \/ out' = Amplified(out, g) /\ gout' = CScale(g, gout) /\ UNCHANGED <<inp, gin>>
    /\ UNCHANGED <<stage, z, base>>
\* windows are those of the grid both sites share; base is even.  Slip: the sites' windows are
\* put together by their number within the recording and not by their place on the grid
ToSpectra ==
    /\ stage = "time" /\ stage' = "spectra"
    /\ LET m == base \div 2  n == NWins(Len(out))
           shift == IF Slip THEN 0 ELSE m IN
       /\ out' = [k \in 1 .. n |-> Bins(Window(out, k))]
       /\ inp' = [c \in 1 .. 2 |-> [k \in 1 .. n |-> Bins(Window(inp[c], k + shift))]]
    /\ UNCHANGED <<z, gin, gout, ops, base>>
Smooth(b) == << CAdd(b[1], b[2]), CAdd(b[1], CAdd(b[2], b[3])), CAdd(b[2], b[3]) >>
Spectra ==
    /\ stage = "spectra" /\ ops < MaxOps /\ ops' = ops + 1
    /\ out' = [k \in DOMAIN out |-> Smooth(out[k])] /\ inp' = [c \in 1 .. 2 |-> [k \in DOMAIN inp[c] |-> Smooth(inp[c][k])]]
    /\ UNCHANGED <<stage, z, gin, gout, base>>
Evals ==
    /\ stage = "spectra" /\ stage' = "evals"
    /\ out' = [k \in DOMAIN out |-> Between(out[k])] /\ inp' = [c \in 1 .. 2 |-> [k \in DOMAIN inp[c] |-> Between(inp[c][k])]]
    /\ UNCHANGED <<z, gin, gout, ops, base>>
\* responses of the sensors are divided out; the responses here are units, and dividing is multiplying with the conjugate
Calibrate ==
    /\ stage = "evals" /\ stage' = "calibrated"
    /\ \E r1, ro \in {<<1, 0>>, <<0, 1>>, <<-1, 0>>} :
        /\ inp' = [inp EXCEPT ![1] = [k \in DOMAIN @ |-> CMul(@[k], CConj(r1))]] /\ gin' = [gin EXCEPT ![1] = CMul(@, CConj(r1))]
        /\ out' = [k \in DOMAIN out |-> CMul(out[k], CConj(ro))] /\ gout' = CMul(gout, CConj(ro))
    /\ UNCHANGED <<z, ops, base>>
ENext == Time \/ ToSpectra \/ Spectra \/ Evals \/ Calibrate
ESpec == EInit /\ [][ENext]_evars

ZC == <<Real(z[1]), Real(z[2])>>
Relation ==
    CASE stage = "time" -> \A k \in DOMAIN out : base = 0 =>
                            Related(Real(out[k]), gout, <<Real(inp[1][k]), Real(inp[2][k])>>, gin, ZC)
      [] stage = "spectra" -> \A k \in DOMAIN out : \A b \in 1 .. 3 :
                            Related(out[k][b], gout, <<inp[1][k][b], inp[2][k][b]>>, gin, ZC)
      [] OTHER -> \A k \in DOMAIN out : Related(out[k], gout, <<inp[1][k], inp[2][k]>>, gin, ZC)
\* two windows with independent inputs determine the solution, and it is the one with the gains
Det(a, b) == CSub(CMul(a[1], b[2]), CMul(a[2], b[1]))
In(k) == <<inp[1][k], inp[2][k]>>
Found == stage \in {"evals", "calibrated"} => \A k, l \in DOMAIN out : LET d == Det(In(k), In(l)) IN d # <<0, 0>> =>
    LET num1 == CSub(CMul(out[k], inp[2][l]), CMul(out[l], inp[2][k]))
        num2 == CSub(CMul(inp[1][k], out[l]), CMul(inp[1][l], out[k])) IN
    /\ CMul(num1, gin[1]) = CMul(CMul(ZC[1], gout), d)
    /\ CMul(num2, gin[2]) = CMul(CMul(ZC[2], gout), d)
V3 == {-1, 0, 2}
V2 == {0, 2}
Z3 == {-1, 0, 3}
L2 == {0, 2}
=============================================================================
