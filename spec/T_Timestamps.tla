---------------------------- MODULE T_Timestamps ----------------------------
(* Trace validation of timestamps as text and JSON (C27).                    *)
EXTENDS Timestamps, TraceKit

XInit == 0
XApply(s, e) == s

Same(o, f) == o = f

XCheck(s, e) ==
    LET i == e.i IN
    IF ~e.ok THEN [answered |-> FALSE]
    ELSE
    CASE e.ev = "format" -> [text_of_instant |-> e.o.text = CivilText(i.f)]
      [] e.ev = "parse" -> [instant_of_text |-> Same(e.o.f, i.f), text_was_of_instant |-> i.text = CivilText(i.f)]
      [] e.ev = "roundtrip" -> [same_instant |-> Same(e.o.f, i.f) /\ e.o.equal]
      [] e.ev = "order" ->
            LET a == OfFields(i.a)
                b == OfFields(i.b) IN
            [earlier |-> e.o.lt = Earlier(a, b) /\ e.o.gt = Earlier(b, a),
             equal |-> e.o.eq = (a = b) /\ e.o.ne = (a # b),
             not_later |-> e.o.le = ~Earlier(b, a) /\ e.o.ge = ~Earlier(a, b)]
      [] e.ev = "difference" ->
            [difference |-> e.o.d = Minus(OfFields(i.a), OfFields(i.b)),
             restores |-> Plus(OfFields(i.b), e.o.d) = OfFields(i.a)]
      [] e.ev = "json" ->     \* timestamps of stored metadata, name by name
            [names |-> {e.o.times[k].name : k \in DOMAIN e.o.times} = {i.times[k].name : k \in DOMAIN i.times},
             same_instants |-> \A k \in DOMAIN i.times : \A m \in DOMAIN e.o.times :
                e.o.times[m].name = i.times[k].name => Same(e.o.times[m].f, i.times[k].f)]
      [] e.ev = "forms" ->
            [same_instant_in_every_form |-> \A k \in DOMAIN e.o.got : Same(e.o.got[k].f, i.f)]
=============================================================================
