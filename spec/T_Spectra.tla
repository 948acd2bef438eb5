------------------------------ MODULE T_Spectra ------------------------------
(* Trace validation of spectra, evaluation frequencies and smoothing.        *)
EXTENDS Spectra, TraceKit

XInit == 0
XApply(s, e) == s

Levels(i) == DOMAIN i.levels
\* what every step on windows or spectra carries over
Carried(e) ==
    [recording_carried_over |-> e.o.meta = e.i.meta /\ e.o.n_levels = Len(e.i.levels),
     one_entry_per_level |-> Len(e.o.levels) = Len(e.i.levels) /\ e.o.keys = [v \in Levels(e.i) |-> v - 1],
     windows_carried_over |-> \A v \in DOMAIN e.o.levels \intersect Levels(e.i) :
        LET a == e.i.levels[v]
            b == e.o.levels[v] IN
        b.n = a.n /\ b.size = a.size /\ b.olap = a.olap /\ b.offset = a.offset /\ b.fs = a.fs,
     data_has_the_stated_shape |-> \A v \in DOMAIN e.o.levels \intersect Levels(e.i) :
        LET b == e.o.levels[v] IN b.shape = <<b.n, Len(e.i.chans), b.n_freqs>> /\ Len(b.freqs) = b.n_freqs]

With(f, g) == [c \in DOMAIN f \union DOMAIN g |-> IF c \in DOMAIN f THEN f[c] ELSE g[c]]

CheckFft(e) ==
    IF ~e.ok THEN [transformed |-> FALSE]
    ELSE LET i == e.i
             m(v) == FastLen(i.levels[v].size)
             good(v) == v \in DOMAIN e.o.levels /\ e.o.levels[v].n_freqs = NFreqs(m(v)) /\ e.o.levels[v].shape = <<i.levels[v].n, Len(i.chans), NFreqs(m(v))>>
         IN With(Carried(e),
        [table_is_a_turn |-> \A v \in Levels(i) : i.circ[v] = <<>> \/ IsTurn(i.circ[v], m(v)),
         frequencies_to_nyquist |-> \A v \in Levels(i) : good(v) /\
            \A k \in 1 .. NFreqs(m(v)) :
                AbsI(e.o.levels[v].freqs[k] * m(v) - (k - 1) * 1000000) <= m(v),
         one_value_per_frequency |-> \A v \in Levels(i) : good(v),
         transform_of_the_window |-> \A v \in Levels(i) : (i.x[v] # <<>> /\ good(v)) =>
            \A w \in DOMAIN i.x[v] : \A c \in DOMAIN i.chans :
                LET y == Tapered(Detrended(i.x[v][w][c], i.detrend), i.w[v])
                IN  \A z \in DOMAIN i.ks[v] :
                        CNear(e.o.X[v][w][c][z], Bin(y, i.circ[v], m(v), i.ks[v][z]), 3 * i.levels[v].size + 4)])

\* a cell of a batch transformed on its own, and sums
CheckAlone(e) == [answered |-> e.ok, only_own_samples |-> e.ok => e.o.alone, adds_up |-> e.ok => e.o.adds]

CheckEvals(e) ==
    IF ~e.ok THEN [reduced |-> FALSE]
    ELSE LET i == e.i
             good(v) == v \in DOMAIN e.o.levels /\ e.o.levels[v].shape = <<i.levels[v].n, Len(i.chans), Len(i.evals[v])>>
         IN With(Carried(e),
        [frequencies_of_the_plan |-> \A v \in Levels(i) : v \in DOMAIN e.o.levels =>
            e.o.levels[v].freqs = i.evals[v] /\ e.o.levels[v].n_freqs = Len(i.evals[v]),
         interpolated |-> \A v \in Levels(i) : good(v) /\
            \A w \in DOMAIN i.v[v] : \A c \in DOMAIN i.chans : \A z \in DOMAIN i.evals[v] :
                CNear(e.o.vals[v][w][c][z], AtFreq(i.f[v], i.v[v][w][c], i.evals[v][z]), 1)])

\* windows 1 .. n of each level are impulses at the n frequencies, times gain c of channel c;
\* the others hold any values
CheckSmooth(e) ==
    IF ~e.ok THEN [smoothed |-> FALSE]
    ELSE LET i == e.i
             n(v) == i.levels[v].n_freqs
             W(v, k, j) == e.o.W[v][j][k]          \* weight of frequency j in the result at k
             h(v) == (Points(i.prop, n(v)) - 1) \div 2
             inner(v, r) == {k \in 1 .. n(v) : k - r >= 1 /\ k + r <= n(v)}
             good(v) == v \in DOMAIN e.o.levels /\ e.o.levels[v].shape = <<i.levels[v].n, Len(i.chans), n(v)>>
             follows(v, table) == LET R == Len(table) - 1 IN
                \A k \in inner(v, R) : \A j \in 1 .. n(v) :
                    Near(W(v, k, j), IF AbsI(k - j) <= R THEN table[AbsI(k - j) + 1] ELSE 0, 1500)
             common ==
                [same_shape |-> \A v \in Levels(i) : good(v),
                 frequencies_kept |-> \A v \in Levels(i) : v \in DOMAIN e.o.levels => e.o.levels[v].freqs_tok = i.levels[v].freqs_tok,
                 weights_sum_to_one |-> \A v \in Levels(i) : good(v) => \A k \in 1 .. n(v) :
                    /\ \A j \in 1 .. n(v) : W(v, k, j) >= -1
                    /\ Near(SumSeq([j \in 1 .. n(v) |-> W(v, k, j)]), 1000000, n(v)),
                 channels_apart |-> \A v \in Levels(i) : good(v) =>
                    \A k, j \in 1 .. n(v) : \A c \in DOMAIN i.chans :
                        CNear(e.o.impulses[v][j][c][k], <<(W(v, k, j) * i.gains[c][1]) \div 1000, (W(v, k, j) * i.gains[c][2]) \div 1000>>, 12),
                 same_weights_for_any_spectrum |-> \A v \in Levels(i) : good(v) =>
                    \A x \in DOMAIN i.v[v] : \A c \in DOMAIN i.chans : \A k \in 1 .. n(v) : \A p \in {1, 2} :
                        Near(e.o.vals[v][x][c][k][p],
                             SumSeq([j \in 1 .. n(v) |-> ((W(v, k, j) \div 10) * i.v[v][x][c][j][p]) \div 100]), 3 * n(v) + 20)]
         IN With(Carried(e), With(common,
            IF i.kind = "uniform" THEN
                [odd_number_of_points |-> \A v \in Levels(i) : good(v) => \A k \in inner(v, h(v)) : \A j \in 1 .. n(v) :
                    Near(W(v, k, j), IF AbsI(k - j) <= h(v) THEN 1000000 \div (2 * h(v) + 1) ELSE 0, 2),
                 only_neighbours |-> \A v \in Levels(i) : good(v) => \A k, j \in 1 .. n(v) : AbsI(k - j) > h(v) => Near(W(v, k, j), 0, 1)]
            ELSE
                [given_standard_deviation |-> \A v \in Levels(i) : good(v) => follows(v, i.table),
                 standard_deviation_given_or_one |-> \A v \in Levels(i) : good(v) => follows(v, i.table) \/ follows(v, i.table_one)]))

XCheck(s, e) ==
    CASE e.ev = "fft" -> CheckFft(e)
      [] e.ev = "alone" -> CheckAlone(e)
      [] e.ev = "evals" -> CheckEvals(e)
      [] e.ev = "smooth" -> CheckSmooth(e)
=============================================================================
