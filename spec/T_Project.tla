----------------------------- MODULE T_Project ------------------------------
(* Trace validation of projects against Project (C19, C21).  After every     *)
(* event the whole tree on disk is observed: a digest for every address.     *)
EXTENDS Project, TraceKit

Nothing == [x \in {} |-> 0]
XInit == [disk |-> Nothing, file |-> FALSE, whole |-> FALSE, dirs |-> {}, sites |-> {}, meas |-> Nothing, evals |-> Nothing, readers |-> <<>>,
          found |-> Nothing, timemade |-> {}, evalsmade |-> {}, tfmade |-> {}]

TimeKey(s, m) == "time " \o s \o " " \o m
SiteKey(s) == "site " \o s
EvalsKey(s, c, m) == "evals " \o s \o " " \o c \o " " \o m
ResultsKey(s, c) == "results " \o s \o " " \o c

\* own addresses of a step, and folders above them which it may have to make
Own(e) == CASE e.ev = "process_time" -> {TimeKey(e.i.osite, e.i.omeas)}
            [] e.ev = "evals" -> {EvalsKey(e.i.site, e.i.cfg, e.i.meas)}
            [] e.ev = "tf" -> {ResultsKey(e.i.osite, e.i.cfg)}
Above(e) == CASE e.ev = "process_time" -> {SiteKey(e.i.osite)}
              [] e.ev = "evals" -> {"above evals " \o e.i.site, "above evals " \o e.i.site \o " " \o e.i.cfg}
              [] e.ev = "tf" -> {"above results " \o e.i.osite}

Same(a, b, k) == k \in DOMAIN a /\ k \in DOMAIN b /\ a[k] = b[k]
Changed(a, b) == {k \in DOMAIN a \cup DOMAIN b : ~Same(a, b, k)}

Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
PFound(s, readers) ==
    {[site |-> s.meas[k].site, meas |-> s.meas[k].meas, reader |-> FirstReader(readers, s.meas[k].kind),
      meta |-> s.meas[k].metas[readers[FirstReader(readers, s.meas[k].kind)]]]
        : k \in {x \in DOMAIN s.meas : FirstReader(readers, s.meas[x].kind) # 0}}
\* the content a loaded measurement stands for, when it is still there
Source(s, e) == LET k == TimeKey(e.i.site, e.i.meas) IN s.meas[k].values[s.readers[FirstReader(s.readers, s.meas[k].kind)]]

FoundNow(s, readers) == [k \in {x \in DOMAIN s.meas : FirstReader(readers, s.meas[x].kind) # 0} |-> s.meas[k].site]
EvalsOf(s, site, cfg) == {<<k, s.evals[EvalsKey(site, cfg, s.meas[k].meas)]>> : k \in {x \in DOMAIN s.found : s.found[x] = site}}

XApply(s0, e) ==
    LET s == [s0 EXCEPT !.disk = e.o.disk] IN
    CASE e.ev = "start" -> [XInit EXCEPT !.disk = e.o.disk, !.file = e.i.file, !.dirs = Range(e.i.dirs)]
      [] e.ev = "create" -> IF s.file THEN s ELSE [s EXCEPT !.file = TRUE, !.whole = TRUE, !.dirs = Folders]
      [] e.ev = "rmfile" -> [s EXCEPT !.file = FALSE]
      [] e.ev = "cut" -> [s EXCEPT !.whole = FALSE]
      [] e.ev = "lose" -> [s EXCEPT !.dirs = {}, !.meas = Nothing, !.sites = {}, !.evals = Nothing]
      [] e.ev = "mkdir" -> [s EXCEPT !.dirs = @ \cup {e.i.d}]
      [] e.ev = "rmdir" -> [s EXCEPT !.dirs = @ \ {e.i.d}, !.meas = IF e.i.d = "time" THEN Nothing ELSE @,
                                     !.sites = IF e.i.d = "time" THEN {} ELSE @, !.evals = IF e.i.d = "evals" THEN Nothing ELSE @]
      [] e.ev = "addsite" -> [s EXCEPT !.sites = @ \cup {e.i.site}]
      [] e.ev = "put" -> [s EXCEPT !.sites = @ \cup {e.i.site}, !.meas = (TimeKey(e.i.site, e.i.meas) :> e.i) @@ @]
      [] e.ev = "remove" -> [s EXCEPT !.meas = Without(@, {TimeKey(e.i.site, e.i.meas)})]
      [] e.ev \in {"load", "reload"} ->
            LET r == IF e.ev = "load" THEN e.i.readers ELSE s.readers IN
            IF ~s.file \/ ~s.whole \/ s.dirs # Folders THEN s ELSE [s EXCEPT !.readers = r, !.found = FoundNow(s, r)]
      [] e.ev = "process_time" /\ e.ok ->
            LET k == TimeKey(e.i.osite, e.i.omeas)
                old == IF k \in DOMAIN s.meas THEN s.meas[k] ELSE [kind |-> "empty", metas |-> Nothing, values |-> Nothing, spans |-> Nothing]
            IN  [s EXCEPT !.sites = @ \cup {e.i.osite},
                          !.meas = (k :> [site |-> e.i.osite, meas |-> e.i.omeas, kind |-> AfterTimeWrite(old.kind), spans |-> ("numpy" :> <<e.o.first, e.o.last>>) @@ old.spans,
                                          metas |-> ("numpy" :> e.o.meta) @@ old.metas, values |-> ("numpy" :> e.o.value) @@ old.values]) @@ @,
                          !.timemade = @ \cup {<<<<e.i.key, Source(s0, e)>>, e.o.value>>}]
      [] e.ev = "evals" /\ e.ok ->
            [s EXCEPT !.evals = (EvalsKey(e.i.site, e.i.cfg, e.i.meas) :> e.o.value) @@ @,
                      !.evalsmade = @ \cup {<<<<e.i.key, Source(s0, e)>>, e.o.value>>}]
      [] e.ev = "tf" /\ e.ok ->
            [s EXCEPT !.tfmade = @ \cup {<<<<e.i.key, EvalsOf(s, e.i.osite, e.i.cfg), EvalsOf(s, e.i.isite, e.i.cfg)>>, e.o.value>>}]
      [] OTHER -> s

CheckCreate(s, e) ==
    IF s.file THEN [existing_project_refused |-> ~e.ok, refusal_changes_nothing |-> e.o.disk = s.disk]
    ELSE [created |-> e.ok,
          project_complete |-> "file" \in DOMAIN e.o.disk /\ \A d \in Folders : ("dir " \o d) \in DOMAIN e.o.disk,
          nothing_destroyed |-> \A k \in DOMAIN s.disk : Same(s.disk, e.o.disk, k),
          nothing_else_made |-> Changed(s.disk, e.o.disk) \subseteq {"file", "root"} \cup {"dir " \o d : d \in Folders}]

CheckLoad(s, e) ==
    LET r == IF e.ev = "load" THEN e.i.readers ELSE s.readers
        F == PFound(s, r)
        ms == {k \in DOMAIN s.meas : FirstReader(r, s.meas[k].kind) # 0}
        Span(k) == s.meas[k].spans[r[FirstReader(r, s.meas[k].kind)]]
    IN
    IF ~s.file \/ ~s.whole \/ s.dirs # Folders
    THEN [incomplete_project_refused |-> ~e.ok, loading_changes_nothing |-> e.o.disk = s.disk]
    ELSE IF ~e.ok THEN [loaded |-> FALSE, loading_changes_nothing |-> e.o.disk = s.disk]
    ELSE [loading_changes_nothing |-> e.o.disk = s.disk,
          every_site_found |-> Range(e.o.sites) = s.sites /\ Len(e.o.sites) = Cardinality(s.sites),
          first_able_reader |-> {[site |-> x.site, meas |-> x.meas, reader |-> x.reader] : x \in Range(e.o.found)}
                                    = {[site |-> x.site, meas |-> x.meas, reader |-> x.reader] : x \in F},
          each_measurement_once |-> Len(e.o.found) = Cardinality(F),
          metadata_as_stored |-> Range(e.o.found) = F,
          project_details |-> e.o.details,
          site_range |-> \A x \in Range(e.o.ranges) :
              LET own == {k \in ms : s.meas[k].site = x.site} IN
              own # {} => /\ x.begin = SetMin({Span(k)[1] : k \in own})
                          /\ x.end = SetMax({Span(k)[2] : k \in own}),
          project_range |-> ms # {} => /\ e.o.begin = SetMin({Span(k)[1] : k \in ms})
                                       /\ e.o.end = SetMax({Span(k)[2] : k \in ms})]

Repeated(made, key, v) == \A m \in made : m[1] = key => m[2] = v
CheckStep(s, e) ==
    IF ~e.ok THEN [step_ran |-> FALSE]
    ELSE LET ch == Changed(s.disk, e.o.disk) IN
         [only_own_address_changed |-> ch \subseteq Own(e) \cup Above(e),
          folders_above_only_made |-> \A k \in Above(e) \cap ch : k \notin DOMAIN s.disk,
          output_at_own_address |-> Own(e) \subseteq DOMAIN e.o.disk /\ (e.ev # "tf" => Own(e) \subseteq ch),
          same_values_when_repeated |->
              CASE e.ev = "process_time" -> Repeated(s.timemade, <<e.i.key, Source(s, e)>>, e.o.value)
                [] e.ev = "evals" -> Repeated(s.evalsmade, <<e.i.key, Source(s, e)>>, e.o.value)
                [] e.ev = "tf" -> Repeated(s.tfmade, <<e.i.key, EvalsOf(s, e.i.osite, e.i.cfg), EvalsOf(s, e.i.isite, e.i.cfg)>>, e.o.value)]

XCheck(s, e) ==
    CASE e.ev = "create" -> CheckCreate(s, e)
      [] e.ev \in {"load", "reload"} -> CheckLoad(s, e)
      [] e.ev \in {"process_time", "evals", "tf"} -> CheckStep(s, e)
      [] OTHER -> [prepared |-> e.ok]
=============================================================================
