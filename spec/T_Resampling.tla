---------------------------- MODULE T_Resampling -----------------------------
(* Trace validation of Resample, Decimate and ShiftTimestamps (C25).         *)
(* Times are observed as fractions of the original sample period, in lowest  *)
(* terms, with the distance to the fraction in 1e-9; values in thousandths   *)
(* of signals with an amplitude of about 1000.                               *)
EXTENDS Resampling, TraceKit

XInit == Original(1)

After(s, e) ==
    CASE e.ev = "resample" -> Resampled(s, e.i.a, e.i.b)
      [] e.ev = "decimate" -> Decimated(s, e.i.a)
      [] e.ev = "shift" -> Shifted(s, e.i.a, e.i.b)
XApply(s, e) == IF e.ev = "start" THEN Original(e.i.n) ELSE IF e.ev = "large" THEN s ELSE IF e.ok THEN After(s, e) ELSE s

At(o, t) == <<o[1], o[2]>> = t /\ o[3] <= 100

\* metadata and data agree, with each other and with the axis
Truthful(o, x) ==
    [n_samples_truthful |-> o.n = x.n /\ o.n_md = x.n,
     every_channel_same_length |-> \A c \in DOMAIN o.lens : o.lens[c] = x.n,
     fs_truthful |-> At(o.period, <<x.num, x.den>>),
     first_time_truthful |-> At(o.first, x.off),
     last_time_truthful |-> At(o.last, LastTime(x)),
     channels_kept |-> o.chans = o.want_chans,
     metadata_kept |-> o.meta,
     each_channel_on_its_own |-> o.alone]

\* samples at common instants: <<new, old, value new, value old>>
SameSignal(o, up, down, tol) ==
    \A c \in DOMAIN o.common : \A k \in DOMAIN o.common[c] :
        LET p == o.common[c][k] IN p[1] * down = p[2] * up => AbsI(p[3] - p[4]) <= tol

\* <<x1, x2, y>>: a value and the one after it, and the one that was made from them
Straight(o, a, b) == \A c \in DOMAIN o.between : \A k \in DOMAIN o.between[c] :
    LET p == o.between[c][k] IN AbsI(b * p[3] - ShiftedValues(<<p[1], p[2]>>, a, b)[1]) <= 2 * b + AbsI(p[1]) \div 100000

\* a long recording resampled by a ratio of large numbers: values lie where the time falls
CheckLarge(e) ==
    LET i == e.i  o == e.o IN
    [answered |-> e.ok,
     n_samples_truthful |-> e.ok => o.n = CeilDiv(i.n * i.a, i.b) /\ o.n_md = o.n,
     fs_truthful |-> e.ok => o.period[1] = i.b /\ o.period[2] = i.a /\ o.period[3] <= 100,
     first_time_truthful |-> e.ok => o.first,
     last_time_truthful |-> e.ok => o.last = o.n - 1,
     same_signal_at_common_times |-> e.ok => \A k \in DOMAIN o.values :
        LET v == o.values[k] IN Min2(v[2], v[3]) - 10000 <= v[4] /\ v[4] <= Max2(v[2], v[3]) + 10000]

XCheck(s, e) ==
    IF e.ev = "start" THEN [prepared |-> e.ok]
    ELSE IF e.ev = "large" THEN CheckLarge(e)
    ELSE IF e.ev = "shift" THEN
        IF ShiftRefused(e.i.a, e.i.b) THEN [too_large_shift_refused |-> ~e.ok]
        ELSE IF ~e.ok THEN [answered |-> FALSE]
        ELSE Truthful(e.o, After(s, e)) @@ [straight_between_samples |-> Straight(e.o, e.i.a, e.i.b)]
    ELSE IF ~e.ok THEN [answered |-> FALSE]
    ELSE Truthful(e.o, After(s, e)) @@
         (IF e.ev = "resample" THEN [same_signal_at_common_times |-> SameSignal(e.o, e.i.a, e.i.b, 25000)]
          ELSE [same_signal_at_common_times |-> SameSignal(e.o, 1, e.i.a, 10000 + 20000 * Len(e.o.steps)),
                steps_give_the_factor |-> GoodSteps(e.o.steps, e.i.a, e.i.b)])
=============================================================================
