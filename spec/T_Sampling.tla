----------------------------- MODULE T_Sampling -----------------------------
(* Trace validation of resistics.sampling against Sampling (C01).           *)
(* A returned time is observed as its nearest tick and the distance to it   *)
(* in millionths of a sample period, which must be nil.                     *)
EXTENDS Sampling, TraceKit

XInit == 0
XApply(s, e) == s

\* a returned time t = [t |-> tick, dev |-> distance] is the time of sample i
IsTime(t, i, k) == t.t = SampleTick(i, k) /\ t.dev = 0

CheckTime(e) ==   \* sample_to_datetime(i), optionally bounded by n
    LET i == e.i IN
    IF i.bounded /\ (i.sample < 0 \/ i.sample >= i.n)
    THEN [sample_outside_recording_refused |-> ~e.ok]
    ELSE [answered |-> e.ok,
          time_of_sample |-> e.ok => IsTime(e.o.time, i.sample, i.K)]

CheckSample(e) ==   \* check_sample
    LET i == e.i IN
    [sample_outside_recording_refused |-> e.ok = (i.sample \in 0..(i.n - 1))]

CheckFrom(e) ==   \* from_time_to_sample
    LET i == e.i IN
    IF FromRefused(i.n, i.K, i.q)
    THEN [start_after_end_refused |-> ~e.ok]
    ELSE [answered |-> e.ok,
          start_sample |-> e.ok => e.o.sample = FromSample(i.n, i.K, i.q)]

CheckTo(e) ==   \* to_time_to_sample
    LET i == e.i IN
    IF ToRefused(i.n, i.K, i.q)
    THEN [end_before_beginning_refused |-> ~e.ok]
    ELSE [answered |-> e.ok,
          end_sample |-> e.ok => e.o.sample = ToSample(i.n, i.K, i.q)]

CheckRange(e) ==   \* datetimes_to_samples
    LET i == e.i IN
    IF FromRefused(i.n, i.K, i.qa) \/ ToRefused(i.n, i.K, i.qb)
    THEN [range_outside_recording_refused |-> ~e.ok]
    ELSE [answered |-> e.ok,
          start_sample |-> e.ok => e.o.from = FromSample(i.n, i.K, i.qa),
          end_sample |-> e.ok => e.o.to = ToSample(i.n, i.K, i.qb)]

CheckTimes(e) ==   \* samples_to_datetimes
    LET i == e.i IN
    IF i.from >= i.to THEN [empty_range_refused |-> ~e.ok]
    ELSE [answered |-> e.ok,
          from_time |-> e.ok => IsTime(e.o.from, i.from, i.K),
          to_time |-> e.ok => IsTime(e.o.to, i.to, i.K)]

CheckCount(e) ==   \* to_n_samples of a duration of d ticks
    LET i == e.i IN
    [answered |-> e.ok,
     counts_both_ends |-> e.ok =>
        IF i.d % i.K = 0 THEN e.o.n = FloorDiv(i.d, i.K) + 1
        ELSE CASE i.method = "floor" -> e.o.n = NSamplesFloor(i.K, i.d)
               [] i.method = "ceil" -> e.o.n = NSamplesCeil(i.K, i.d)
               [] OTHER -> \/ e.o.n = NSamplesFloor(i.K, i.d) /\ 2 * (i.d % i.K) <= i.K
                           \/ e.o.n = NSamplesCeil(i.K, i.d) /\ 2 * (i.d % i.K) >= i.K]

CheckClip(e) ==   \* check_from_time / check_to_time
    LET i == e.i
        want == IF i.which = "from" THEN Max2(i.q, 0) ELSE Min2(i.q, LastTick(i.n, i.K))
        refused == IF i.which = "from" THEN FromRefused(i.n, i.K, i.q) ELSE ToRefused(i.n, i.K, i.q)
    IN  IF refused THEN [outside_refused |-> ~e.ok]
        ELSE [answered |-> e.ok,
              clipped |-> e.ok => e.o.time.t = want /\ e.o.time.dev = 0]

CheckArray(e) ==   \* datetime_array and datetime_array_estimate
    LET i == e.i IN
    [answered |-> e.ok,
     array_length |-> e.ok => Len(e.o.times) = Len(i.samples),
     array_agrees |-> (e.ok /\ Len(e.o.times) = Len(i.samples)) =>
        \A k \in DOMAIN i.samples :
            e.o.times[k].t = SampleTick(i.samples[k], i.K) /\ e.o.times[k].dev <= i.slack,
     array_agrees_with_scalar |-> (e.ok /\ "agree" \in DOMAIN e.o) =>
        \A k \in DOMAIN e.o.agree : e.o.agree[k]]

\* far into a recording: the time of sample n, its distance from n periods after
\* the first sample in femtoseconds per sample
CheckDrift(e) ==
    [answered |-> e.ok,
     no_drift |-> e.ok => e.o.drift \in 0..MaxDrift]

\* a duration of whole + part / K periods, far beyond the range of a tick number;
\* the answer is observed relative to whole
CheckFar(e) ==
    LET i == e.i IN
    [answered |-> e.ok,
     counts_both_ends |-> (e.ok /\ i.which = "count") =>
        e.o.n = CASE i.part = 0 -> 1
                  [] i.method = "floor" -> NSamplesFloor(i.K, i.part)
                  [] i.method = "ceil" -> NSamplesCeil(i.K, i.part)
                  [] OTHER -> IF 2 * i.part < i.K THEN 1 ELSE 2,
     start_sample |-> (e.ok /\ i.which = "from") => e.o.n = CeilDiv(i.part, i.K),
     end_sample |-> (e.ok /\ i.which = "to") => e.o.n = FloorDiv(i.part, i.K)]

XCheck(s, e) ==
    CASE e.ev = "time" -> CheckTime(e)
      [] e.ev = "sample" -> CheckSample(e)
      [] e.ev = "from" -> CheckFrom(e)
      [] e.ev = "to" -> CheckTo(e)
      [] e.ev = "range" -> CheckRange(e)
      [] e.ev = "times" -> CheckTimes(e)
      [] e.ev = "count" -> CheckCount(e)
      [] e.ev = "clip" -> CheckClip(e)
      [] e.ev = "array" -> CheckArray(e)
      [] e.ev = "drift" -> CheckDrift(e)
      [] e.ev = "far" -> CheckFar(e)
=============================================================================
