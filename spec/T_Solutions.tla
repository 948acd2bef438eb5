----------------------------- MODULE T_Solutions -----------------------------
(* Trace validation of the solution store (C18).                             *)
(* "scan" fetches the solution of every address of the session.              *)
EXTENDS Solutions, TraceKit

XInit == Empty
XApply(s, e) ==
    CASE e.ev = "start" -> Empty
      [] e.ev = "compute" -> IF e.ok THEN AfterCompute(s, e.i.a, e.o.sol) ELSE s
      [] OTHER -> s

XCheck(s, e) ==
    CASE e.ev = "start" -> [prepared |-> e.ok]
      [] e.ev = "compute" ->
            [computed |-> e.ok,
             only_results_of_the_site_and_configuration |-> e.ok => \A d \in Range(e.o.changed) : d = <<e.i.a.site, e.i.a.cfg>>]
      [] e.ev = "scan" ->
            IF ~e.ok THEN [found_again |-> FALSE]
            ELSE [found_again |-> \A k \in DOMAIN e.o.got :
                        e.o.got[k].a \in DOMAIN s => e.o.got[k].sol = s[e.o.got[k].a],
                  no_solution_is_an_error |-> \A k \in DOMAIN e.o.got :
                        e.o.got[k].a \notin DOMAIN s => e.o.got[k].sol = 0,
                  every_address_scanned |-> {e.o.got[k].a : k \in DOMAIN e.o.got} = Range(e.i.addresses)]
=============================================================================
