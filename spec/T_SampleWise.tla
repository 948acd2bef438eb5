---------------------------- MODULE T_SampleWise -----------------------------
(* Trace validation of sample-wise time processing against SampleWise (C24). *)
(* Values are observed in thousandths.                                       *)
EXTENDS SampleWise, TraceKit

Unit == 1000
XInit == <<>>
\* the samples after the last operation of the session
Sane(x) == [i \in DOMAIN x |-> IF AbsI(x[i]) > 3000000 THEN Gap ELSE x[i]]
XApply(s, e) == IF e.ev = "start" THEN e.i.x ELSE IF e.ok THEN [c \in DOMAIN e.o.y |-> Sane(e.o.y[c])] ELSE s

Close(a, b, tol) == (a = Gap /\ b = Gap) \/ (a # Gap /\ b # Gap /\ AbsI(a - b) <= tol + AbsI(b) \div 500000)
\* a square doubles the half thousandth the input was observed to, times the input (40 at most)
Tol(o) == IF o.op = "apply" THEN 50 ELSE 2
CloseAll(x, y, tol) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Close(x[i], y[i], tol)

CheckRun(x, e) ==
    IF ~e.ok THEN [answered |-> FALSE] ELSE
    LET o == e.i.o  y == e.o.y  d == {c \in DOMAIN e.i.names : Designated(o, e.i.names[c])} IN
    [channels_kept |-> e.o.names = e.i.names /\ Len(y) = Len(x),
     designated_changed_as_asked |-> Len(y) = Len(x) =>
        \A c \in d : CloseAll(y[c], Result(o, e.i.names[c], x[c], Unit), Tol(o)),
     others_left_alone |-> Len(y) = Len(x) =>
        \A c \in DOMAIN x \ d : y[c] = x[c] /\ e.o.equal[c] = [i \in DOMAIN x[c] |-> 1],
     present_samples_left_alone |-> o.op = "fill" => \A c \in DOMAIN x : \A i \in Present(x[c]) : e.o.equal[c][i] = 1,
     metadata_kept |-> e.o.meta]

XCheck(s, e) == IF e.ev = "start" THEN [prepared |-> e.ok] ELSE CheckRun(s, e)
=============================================================================
