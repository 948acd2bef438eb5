------------------------------ MODULE T_Filters ------------------------------
(* Trace validation of filters against Filters (C32).                       *)
(* Amplitudes are observed in thousandths of a tone's amplitude at the      *)
(* beginning: <<in phase with it, a quarter period off>>.                   *)
EXTENDS Filters, TraceKit

XInit == [tones |-> <<>>, left |-> <<>>]
\* left: what was left of each tone in each channel; and what has to be left of it next
After(s, f) == [s EXCEPT !.left = [c \in DOMAIN @ |-> [k \in DOMAIN @[c] |-> (@[c][k] * Gain(f, s.tones[k]) + 500) \div One]]]
Seen(s, e) == IF e.ok THEN [s EXCEPT !.left = [c \in DOMAIN e.o.amp |-> [k \in DOMAIN e.o.amp[c] |-> e.o.amp[c][k][1]]]] ELSE s
XApply(s, e) ==
    CASE e.ev = "start" -> [tones |-> e.i.tones, left |-> [c \in DOMAIN e.i.has |-> [k \in DOMAIN e.i.has[c] |-> One * e.i.has[c][k]]]]
      [] e.ev = "run" -> Seen(s, e)
      [] OTHER -> s

Tol == 20
\* next to a cutoff the gain falls fast, and frequencies are rounded
Slack(g) == IF g > 50 /\ g < 950 THEN 60 ELSE Tol
\* tones at the end of the range or in the flat part can be seen better
Passed(s, f, k) == Gain(f, s.tones[k]) >= One - 2
Removed(s, f, k) == Gain(f, s.tones[k]) = 0
CheckRun(s, e) ==
    IF ~e.ok THEN [answered |-> FALSE] ELSE
    LET t == After(s, e.i.f).left  o == e.o IN
    [shape_kept |-> Len(o.amp) = Len(t) /\ o.n = e.i.n /\ o.dtype = e.i.dtype,
     names_kept |-> o.names = e.i.names,
     metadata_kept |-> o.meta,
     pass_band_unchanged |-> \A c \in DOMAIN t : \A k \in DOMAIN t[c] : Passed(s, e.i.f, k) => AbsI(o.amp[c][k][1] - t[c][k]) <= Tol,
     stop_band_removed |-> \A c \in DOMAIN t : \A k \in DOMAIN t[c] : Removed(s, e.i.f, k) => AbsI(o.amp[c][k][1]) <= Tol,
     gain_between |-> \A c \in DOMAIN t : \A k \in DOMAIN t[c] : AbsI(o.amp[c][k][1] - t[c][k]) <= Slack(Gain(e.i.f, s.tones[k])),
     no_shift |-> \A c \in DOMAIN t : \A k \in DOMAIN t[c] : AbsI(o.amp[c][k][2]) <= Tol,
     nothing_new |-> o.rest <= Tol]

XCheck(s, e) ==
    CASE e.ev = "start" -> [prepared |-> e.ok]
      [] e.ev = "run" -> CheckRun(s, e)
      [] e.ev = "refuse" -> [out_of_range_refused |-> ~e.ok /\ e.i.refused = Refused(e.i.kind, e.i.lo, e.i.hi, e.i.notch)]
=============================================================================
