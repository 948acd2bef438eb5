----------------------------- MODULE T_EndToEnd ------------------------------
(* Trace validation of whole processings against EndToEnd (C31).            *)
(* Components are observed in thousandths.                                  *)
EXTENDS EndToEnd, TraceKit

XInit == 0
XApply(s, e) == s

CAbs(a) == AbsI(a[1]) + AbsI(a[2])
CheckSolve(e) ==
    IF ~e.ok THEN [answered |-> FALSE] ELSE
    LET i == e.i  o == e.o IN
    [every_frequency_answered |-> o.same_freqs /\ o.n = i.n_freqs,
     channels_as_asked |-> o.out = i.out /\ o.inp = i.inp,
     response_is_the_one_in_the_data |->
        \A a \in DOMAIN i.z : \A b \in DOMAIN i.z[a] : \A f \in DOMAIN o.comp[a][b] :
            LET num == Num(<<i.z[a][b], 0>>, <<i.mo[a], 0>>, i.ri[b])
                den == Den(<<i.mi[b], 0>>, i.ro[a])
                d == CSub(CMul(o.comp[a][b][f], den), CScale(1000, num)) IN
            CAbs(o.comp[a][b][f]) < 4000000 /\ CAbs(d) <= CAbs(den) + CAbs(num) \div 50,
     stored_as_returned |-> o.stored]

XCheck(s, e) == IF e.ev = "solve" THEN CheckSolve(e) ELSE [prepared |-> e.ok]
=============================================================================
