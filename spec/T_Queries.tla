----------------------------- MODULE T_Queries ------------------------------
(* Trace validation of project queries against Queries (C20).               *)
EXTENDS Queries, TraceKit

XInit == [disk |-> {}, mem |-> {}, sites |-> {}]

XApply(s, e) ==
    CASE e.ev = "start" -> [XInit EXCEPT !.sites = Range(e.i.sites)]
      [] e.ev = "put" -> [s EXCEPT !.disk = {x \in @ : x.site # e.i.m.site \/ x.meas # e.i.m.meas} \cup {e.i.m}, !.sites = @ \cup {e.i.m.site}]
      [] e.ev = "remove" -> [s EXCEPT !.disk = @ \ {e.i.m}]
      [] e.ev = "load" -> [s EXCEPT !.mem = s.disk]
      [] e.ev = "sites" -> [s EXCEPT !.sites = Range(e.i.sites)]
      [] OTHER -> s

SetOf(seq) == Range(seq)
NoneTwice(seq) == Len(seq) = Cardinality(Range(seq))
Exactly(seq, S) == NoneTwice(seq) /\ Range(seq) = S

CheckLook(s, e) ==
    LET ms == s.mem  o == e.o IN
    IF ~e.ok THEN [answered |-> FALSE] ELSE
    [project_fs |-> o.fs = FsList(ms),
     site_fs |-> \A x \in SetOf(o.site_fs) : x.fs = FsList(OfSite(ms, x.site)),
     every_site_listed |-> Exactly(o.sites, s.sites) /\ Exactly([k \in DOMAIN o.site_fs |-> o.site_fs[k].site], s.sites)
                           /\ o.n_sites = Cardinality(s.sites),
     every_measurement_listed |-> Exactly(o.meas, ms) /\ o.n_meas = Cardinality(ms),
     sites_with_fs |-> \A x \in SetOf(o.with_fs) : Exactly(x.sites, SitesWithFs(ms, x.fs)),
     measurements_with_fs |-> \A x \in SetOf(o.meas_with_fs) : Exactly(x.meas, {m.meas : m \in WithFs(OfSite(ms, x.site), x.fs)}),
     concurrent_sites |-> \A x \in SetOf(o.concurrent) :
         /\ NoneTwice(x.sites)
         /\ SetOf(x.sites) \cap Populated(ms) = Concurrent(ms, x.site)
         /\ x.site \notin SetOf(x.sites),
     site_range |-> \A x \in SetOf(o.ranges) : <<x.begin, x.end>> = SiteRange(ms, x.site),
     project_range |-> ms # {} => o.begin = First(ms) /\ o.end = Last(ms),
     found_by_name |-> o.by_name,
     unknown_names_refused |-> \A x \in SetOf(o.unknown) : x.refused,
     table_lists_measurements |-> Exactly(o.table, ms),
     asking_changes_nothing |-> o.unchanged]

XCheck(s, e) ==
    CASE e.ev = "look" -> CheckLook(s, e)
      [] OTHER -> [prepared |-> e.ok]
=============================================================================
