------------------------------ MODULE Figures ------------------------------
(***************************************************************************)
(* What figures show (property C33).                                       *)
(*                                                                         *)
(* A figure is a sequence of rows, one per channel; a row holds the traces *)
(* drawn on it, in order; a trace is a sequence of points <<x, y>>.        *)
(* Drawing adds traces and changes none that are there.                    *)
(***************************************************************************)
EXTENDS Base

EmptyFigure(chans) == [chans |-> chans, rows |-> [k \in DOMAIN chans |-> <<>>]]
\* t[k]: what is drawn on row k (a sequence of traces, possibly empty)
Draw(fig, t) == [fig EXCEPT !.rows = [k \in DOMAIN fig.chans |-> fig.rows[k] \o t[k]]]
\* rows on which a recording with channels has is drawn
RowsOf(fig, has) == {k \in DOMAIN fig.chans : fig.chans[k] \in Range(has)}

\* --- points of one series y (x counted from 0), at most limit of them (0: all)
Whole(y) == [k \in DOMAIN y |-> <<k - 1, y[k]>>]
Thinned(tr, y, limit) ==
    /\ Len(tr) <= limit
    /\ \A k \in DOMAIN tr : tr[k][1] \in 0..(Len(y) - 1) /\ tr[k][2] = y[tr[k][1] + 1]
    /\ \A k \in 1..(Len(tr) - 1) : tr[k][1] < tr[k + 1][1]
    /\ tr # <<>> /\ tr[1][1] = 0 /\ tr[Len(tr)][1] = Len(y) - 1
Shows(tr, y, limit) == IF limit = 0 \/ limit >= Len(y) THEN tr = Whole(y) ELSE Thinned(tr, y, limit)

\* --- windows stacked over time: time t falls in span g of length len counted from origin
SpanOf(t, origin, len) == FloorDiv(t - origin, len)
Spans(times, origin, len) == {SpanOf(times[k], origin, len) : k \in DOMAIN times}
WindowsOf(times, origin, len, g) == {k \in DOMAIN times : SpanOf(times[k], origin, len) = g}
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET k == SetMin(S) IN f[k] + SumOver(f, S \ {k})

\* --- angles of complex numbers on the eight principal directions, in degrees
Sign(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
AngleOf(z) ==
    LET s == <<Sign(z[1]), Sign(z[2])>> IN
    CASE s = <<1, 0>> -> 0 [] s = <<1, 1>> -> 45 [] s = <<0, 1>> -> 90 [] s = <<-1, 1>> -> 135
      [] s = <<-1, 0>> -> 180 [] s = <<-1, -1>> -> 225 [] s = <<0, -1>> -> 270 [] s = <<1, -1>> -> 315
      [] OTHER -> 0
SameAngle(a, b) == (a - b) % 360 = 0
\* a phase curve follows the angles of z and never jumps more than half a turn
Follows(u, z) ==
    /\ Len(u) = Len(z)
    /\ \A k \in DOMAIN u : SameAngle(u[k], AngleOf(z[k]))
    /\ \A k \in 1..(Len(u) - 1) : AbsI(u[k + 1] - u[k]) <= 180
\* the angle a turned so that it follows the curve at u
NextAngle(u, a) == LET d == (a - u) % 360 IN u + (IF d > 180 THEN d - 360 ELSE d)

\* apparent resistivity of an impedance z at period p (a multiple of five seconds), in Ohm m
Resistivity(p, z) == (p \div 5) * (z[1] * z[1] + z[2] * z[2])
============================================================================
