---------------------------- MODULE T_Interleaved ----------------------------
(* Trace validation of steps that run in turns against Interleaved (C37).    *)
(* alone: what each step gives by itself; run: what they give when each gets *)
(* its turns in the order the specification found.                           *)
EXTENDS Interleaved, TraceKit

XInit == [steps |-> <<>>, alone |-> <<>>]

XApply(s, e) ==
    CASE e.ev = "start" -> [steps |-> e.i.steps, alone |-> <<>>]
      [] e.ev = "alone" -> [s EXCEPT !.alone = Append(@, IF e.ok THEN [value |-> e.o.value, product |-> e.o.product]
                                                         ELSE [value |-> 0, product |-> 0])]
      [] OTHER -> s

Sets(x) == [out |-> x.out, ins |-> Range(x.ins)]

XCheck(s, e) ==
    CASE e.ev = "start" ->
            [independent |-> \A a, b \in DOMAIN e.i.steps :
                                a # b => Independent(Sets(e.i.steps[a]), Sets(e.i.steps[b]))]
      [] e.ev = "alone" -> [runs_alone |-> e.ok]
      [] e.ev = "run" ->
            IF ~e.ok THEN [observed |-> FALSE]
            ELSE [nobody_fails |-> e.o.errors = <<>>,
                  returns_as_alone |-> \A k \in DOMAIN s.alone : e.o.values[k] = s.alone[k].value,
                  products_as_alone |-> \A k \in DOMAIN s.alone : e.o.products[k] = s.alone[k].product,
                  files_as_alone |-> e.o.names_same,
                  nothing_else_touched |-> e.o.rest_same]
      [] OTHER -> <<>>
=============================================================================
