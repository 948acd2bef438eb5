------------------------------ MODULE T_Figures ------------------------------
(* Trace validation of figures and tables against Figures (C33).              *)
EXTENDS Figures, TraceKit

Scale == 2520   \* means of up to ten whole numbers are observed in units of 1/2520

XInit == EmptyFigure(<<>>)
XApply(s, e) ==
    CASE e.ev = "start" -> EmptyFigure(e.i.chans)
      [] e.ev = "draw" /\ e.ok -> [s EXCEPT !.rows = e.o.rows]
      [] OTHER -> s

\* ys[r]: what the recording holds for row r, with there[r] whether it holds anything
CheckDraw(s, e) ==
    LET i == e.i
        rows == e.o.rows
        new(r) == SubSeq(rows[r], Len(s.rows[r]) + 1, Len(rows[r]))
    IN  IF ~e.ok THEN [drawn |-> FALSE]
        ELSE IF Len(rows) # Len(i.ys) THEN [row_for_every_channel |-> FALSE]
        ELSE [earlier_traces_kept |-> \A r \in DOMAIN rows : Len(rows[r]) >= Len(s.rows[r]) /\ SubSeq(rows[r], 1, Len(s.rows[r])) = s.rows[r],
              one_trace_per_channel |-> \A r \in DOMAIN rows : Len(new(r)) = (IF i.there[r] THEN 1 ELSE 0),
              shows_the_samples |-> \A r \in DOMAIN rows : (i.there[r] /\ Len(new(r)) = 1) => Shows(new(r)[1], i.ys[r], i.limit),
              own_legend |-> \A r \in DOMAIN e.o.names : e.o.names[r] = i.legend]

\* ys[r][l]: channel r on level l
CheckLevels(e) ==
    LET i == e.i IN
    IF ~e.ok THEN [drawn |-> FALSE]
    ELSE IF Len(e.o.rows) # Len(i.ys) THEN [row_for_every_channel |-> FALSE]
    ELSE [one_trace_per_level |-> \A r \in DOMAIN i.ys : Len(e.o.rows[r]) = Len(i.ys[r]),
          shows_the_samples |-> \A r \in DOMAIN i.ys : \A l \in DOMAIN i.ys[r] :
                l \in DOMAIN e.o.rows[r] => Shows(e.o.rows[r][l], i.ys[r][l], i.limit)]

\* mean over windows w of the magnitudes m[k][f]
MeanOf(m, w, f) == (SumOver([k \in DOMAIN m |-> m[k][f]], w) * Scale) \div Cardinality(w)
Curve(m, w) == [f \in DOMAIN m[1] |-> MeanOf(m, w, f)]

\* mag[r][l]: magnitudes of channel r on level l, window by window
CheckMeans(e) ==
    LET i == e.i IN
    IF ~e.ok THEN [drawn |-> FALSE]
    ELSE IF Len(e.o.rows) # Len(i.mag) THEN [row_for_every_channel |-> FALSE]
    ELSE [one_trace_per_level |-> \A r \in DOMAIN i.mag : Len(e.o.rows[r]) = Len(i.mag[r]),
          mean_magnitude_at_each_frequency |-> \A r \in DOMAIN i.mag : \A l \in DOMAIN i.mag[r] :
                l \in DOMAIN e.o.rows[r] => Shows(e.o.rows[r][l], Curve(i.mag[r][l], DOMAIN i.mag[r][l]), i.limit)]

\* windows at times; traces of spans without windows are of no interest
CheckStack(e) ==
    LET i == e.i
        spans == SortedSeq(Spans(i.times, i.origin, i.len))
        w(g) == WindowsOf(i.times, i.origin, i.len, g)
        at(g) == i.origin + g * i.len
        full(r) == SelectSeq(e.o.rows[r], LAMBDA t : \E g \in Range(spans) : t.at = at(g))
    IN  IF ~e.ok THEN [drawn |-> FALSE]
        ELSE IF Len(e.o.rows) # Len(i.mag) THEN [row_for_every_channel |-> FALSE]
        ELSE [spans_with_windows_shown_once_in_order |-> \A r \in DOMAIN i.mag :
                [k \in DOMAIN full(r) |-> full(r)[k].at] = [k \in DOMAIN spans |-> at(spans[k])],
              no_windows_nothing_shown |-> \A r \in DOMAIN i.mag : \A k \in DOMAIN e.o.rows[r] :
                (\A g \in Range(spans) : e.o.rows[r][k].at # at(g)) => e.o.rows[r][k].empty,
              mean_magnitude_of_the_span |-> \A r \in DOMAIN i.mag : \A k \in DOMAIN full(r) :
                LET g == SpanOf(full(r)[k].at, i.origin, i.len)
                IN  full(r)[k].pts = Whole(Curve(i.mag[r], w(g)))]

\* a heat map for every channel; columns are spans (those without windows may be shown, with
\* nothing in them), rows are frequencies
CheckSection(e) ==
    LET i == e.i
        spans == SortedSeq(Spans(i.times, i.origin, i.len))
        w(g) == WindowsOf(i.times, i.origin, i.len, g)
        full(r) == SelectSeq([k \in DOMAIN e.o.maps[r].mid2 |-> k], LAMBDA k : ~e.o.maps[r].empty[k])
    IN  IF ~e.ok THEN [drawn |-> FALSE]
        ELSE IF Len(e.o.maps) # Len(i.mag) THEN [row_for_every_channel |-> FALSE]
        ELSE [spans_with_windows_shown_once_in_order |-> \A r \in DOMAIN i.mag :
                [k \in DOMAIN full(r) |-> e.o.maps[r].mid2[full(r)[k]]] = [k \in DOMAIN spans |-> 2 * (i.origin + spans[k] * i.len) + i.len],
              columns_belong_to_times |-> \A r \in DOMAIN i.mag : Len(e.o.maps[r].cols) = Len(e.o.maps[r].mid2),
              frequencies_shown |-> \A r \in DOMAIN i.mag : e.o.maps[r].freqs = [f \in DOMAIN i.mag[1][1] |-> f - 1],
              mean_magnitude_of_the_span |-> \A r \in DOMAIN i.mag :
                [k \in DOMAIN full(r) |-> e.o.maps[r].cols[full(r)[k]]] = [k \in DOMAIN spans |-> Curve(i.mag[r], w(spans[k]))]]

PhaseOk(key, z, u) ==
    IF key \in {"ExHx", "ExHy"}
    THEN Len(u) = Len(z) /\ \A k \in DOMAIN u : SameAngle(u[k], AngleOf(z[k]) + 180) /\ AbsI(u[k]) <= 180
    ELSE Follows(u, z)
ResOk(p, z, r) == r = [k \in DOMAIN z |-> Resistivity(p[k], z[k])]

CheckImpedance(e) ==
    LET i == e.i IN
    IF ~e.ok THEN [drawn |-> FALSE]
    ELSE [earlier_traces_kept |-> e.o.kept,
          one_trace_per_component |-> Len(e.o.res) = Len(i.keys) /\ Len(e.o.phase) = Len(i.keys),
          periods_shown |-> \A k \in DOMAIN e.o.xs : e.o.xs[k] = i.periods,
          resistivity |-> \A k \in DOMAIN i.keys : k \in DOMAIN e.o.res => ResOk(i.periods, i.z[k], e.o.res[k]),
          phase |-> \A k \in DOMAIN i.keys : k \in DOMAIN e.o.phase => PhaseOk(i.keys[k], i.z[k], e.o.phase[k])]

\* real and imaginary parts are observed in pairs <<x, y>> of the two components
CheckTipper(e) ==
    LET i == e.i IN
    IF ~e.ok THEN [drawn |-> FALSE]
    ELSE [length_of_real_part |-> e.o.length2 = [k \in DOMAIN i.re |-> i.re[k][1] * i.re[k][1] + i.re[k][2] * i.re[k][2]],
          real_angle |-> \A k \in DOMAIN i.re : (e.o.real[k] - AngleOf(i.re[k])) % 180 = 0 /\ AbsI(e.o.real[k]) <= 90,
          imaginary_angle |-> \A k \in DOMAIN i.im : (e.o.imag[k] - AngleOf(i.im[k])) % 180 = 0 /\ AbsI(e.o.imag[k]) <= 90,
          periods_shown |-> e.o.x = i.periods]

CheckTable(e) ==
    IF ~e.ok THEN [drawn |-> FALSE]
    ELSE [table_holds_the_data |-> e.o.table = e.i.table,
          shows_the_curves |-> "rows" \notin DOMAIN e.o \/ e.o.rows = e.i.rows]

\* one bar per measurement: <<name, begin, end>>
CheckTimeline(e) ==
    IF e.i.bars = <<>> THEN [nothing_to_draw_refused |-> ~e.ok]
    ELSE IF ~e.ok THEN [drawn |-> FALSE]
    ELSE [one_bar_per_measurement |-> Len(e.o.bars) = Len(e.i.bars) /\ \A k \in DOMAIN e.i.bars :
                Cardinality({j \in DOMAIN e.o.bars : e.o.bars[j] = e.i.bars[k]}) = Cardinality({j \in DOMAIN e.i.bars : e.i.bars[j] = e.i.bars[k]}),
          table_holds_the_data |-> Range(e.o.table) = Range(e.i.table) /\ Len(e.o.table) = Len(e.i.table)]

XCheck(s, e) ==
    CASE e.ev = "start" -> [prepared |-> e.ok]
      [] e.ev = "draw" -> CheckDraw(s, e)
      [] e.ev = "levels" -> CheckLevels(e)
      [] e.ev = "means" -> CheckMeans(e)
      [] e.ev = "stack" -> CheckStack(e)
      [] e.ev = "section" -> CheckSection(e)
      [] e.ev = "impedance" -> CheckImpedance(e)
      [] e.ev = "tipper" -> CheckTipper(e)
      [] e.ev = "table" -> CheckTable(e)
      [] e.ev = "timeline" -> CheckTimeline(e)
===============================================================================
