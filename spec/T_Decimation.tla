---------------------------- MODULE T_Decimation ----------------------------
(* Trace validation of decimation plans (C06) and decimated data (C07).      *)
EXTENDS Decimation, TraceKit

XInit == 0
XApply(s, e) == s

PlanRefused(i) == ~i.default /\ (Len(i.freqs) # i.levels * i.per \/ \E k \in DOMAIN i.freqs : 2 * i.freqs[k] > i.fs)

WantFactors(i) ==
    [l \in 1 .. i.levels |->
        IF i.default THEN DefaultFactor(i.d, (l - 1) * i.per)
        ELSE Factor(i.fs, i.d, SetMax(Range(LevelFreqs(i.freqs, i.per, l))))]

\* frequencies are observed as themselves, and in the default plan in half octaves below fs / 4
WantFreqs(i) ==
    [l \in 1 .. i.levels |->
        IF i.default THEN [k \in 1 .. i.per |-> (l - 1) * i.per + k - 1] ELSE LevelFreqs(i.freqs, i.per, l)]

CheckPlan(e) ==
    LET i == e.i IN
    IF PlanRefused(i) THEN [bad_frequencies_refused |-> ~e.ok]
    ELSE IF ~e.ok THEN [planned |-> FALSE]
    ELSE LET f == WantFactors(i) IN
        [frequencies_in_order |-> e.o.freqs = WantFreqs(i),
         table_agrees |-> e.o.table = WantFreqs(i) /\ e.o.frame = WantFreqs(i),
         single_frequencies_agree |-> e.o.singles = WantFreqs(i) /\ e.o.items = WantFreqs(i),
         largest_resolvable_factor |-> e.o.factors = f,
         level_sampling_frequency |-> e.o.ratios = f,
         increments_multiply_up |->
            Len(e.o.incs) = i.levels /\ (Len(e.o.incs) = i.levels => RunningProduct(e.o.incs) = e.o.factors)]

CheckAccess(e) ==
    LET i == e.i
        bad == i.level \notin 0 .. (i.levels - 1) \/ (i.what \in {"freq", "item2"} /\ i.idx \notin 0 .. (i.per - 1))
    IN  IF bad THEN [outside_plan_refused |-> ~e.ok]
        ELSE [answered |-> e.ok,
              right_entry |-> e.ok => e.o.at = IF i.what \in {"freq", "item2"} THEN <<i.level, i.idx>> ELSE <<i.level>>]

\* frequencies from a quarter of fs = 4 * q down to f
RECURSIVE Fits(_, _, _)
Fits(q2, f2, k) == IF f2 > q2 THEN k ELSE Fits(q2 , 2 * f2, k + 1)
CheckFreqs(e) ==
    LET i == e.i
        want == IF i.form = "size" THEN i.n ELSE Fits(i.q * i.q, i.f * i.f, 0)
    IN  [answered |-> e.ok,
         half_octaves_down |-> e.ok => e.o.steps = [k \in 1 .. want |-> k - 1]]

(* ------------------------------------------------------------------ C07 *)
CheckDecimate(e) ==
    LET i == e.i
        incs == Increments(i.factors)
        lens == Lengths(i.n, incs)
        k == KeptLevels(lens, i.least)
    IN
    IF k = 0 THEN [no_level_is_long_enough |-> ~e.ok \/ e.o.levels = <<>>]
    ELSE IF ~e.ok THEN [decimated |-> FALSE]
    ELSE LET L == e.o.levels
             both == 1 .. Min2(Len(L), k)
         IN
        [levels_without_gaps |-> e.o.keys = [l \in 1 .. Len(L) |-> l - 1] /\ e.o.n_levels = Len(L),
         stops_at_minimum |-> Len(L) = k,
         no_level_below_minimum |-> \A l \in DOMAIN L : L[l].n >= i.least,
         length_by_factor |-> \A l \in both : L[l].n = lens[l],
         reported_samples |-> \A l \in DOMAIN L : L[l].meta_n = L[l].n,
         level_frequency |-> \A l \in both : L[l].ratio = i.factors[l] /\ L[l].listed_ratio = i.factors[l],
         starts_at_first_time |-> \A l \in DOMAIN L : L[l].first.t = 0 /\ L[l].first.dev = 0,
         last_time_describes_data |-> \A l \in both : L[l].last.t = (L[l].n - 1) * i.factors[l] /\ L[l].last.dev = 0,
         channels_in_order |-> e.o.chans = i.chans /\ \A l \in DOMAIN L : L[l].n_chans = Len(i.chans),
         factor_one_unchanged |-> \A l \in both : (incs[l] = 1) => L[l].as_before,
         level_from_previous |-> \A l \in both : L[l].as_step,
         depends_on_own_channel_only |-> \A l \in both : L[l].alone,
         samples_at_their_times |-> \A l \in both : L[l].centre \in -3 .. 3,
         input_first_last_kept |-> e.o.first.t = 0 /\ e.o.first.dev = 0 /\ e.o.last.t = i.n - 1 /\ e.o.last.dev = 0]

XCheck(s, e) ==
    CASE e.ev = "plan" -> CheckPlan(e)
      [] e.ev = "access" -> CheckAccess(e)
      [] e.ev = "freqs" -> CheckFreqs(e)
      [] e.ev = "decimate" -> CheckDecimate(e)
=============================================================================
