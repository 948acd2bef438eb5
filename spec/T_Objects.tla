----------------------------- MODULE T_Objects ------------------------------
(* Trace validation of processing steps, writers and readers against         *)
(* Objects (C04, C05).  After every event all objects there are, and all     *)
(* parameters that were given to a step, are observed again as tokens.       *)
EXTENDS Objects, TraceKit

XInit == [objs |-> <<>>, files |-> <<>>, live |-> <<>>, made |-> <<>>, recs |-> {}]

Recs(h) == [k \in DOMAIN h |-> h[k].rec]
RecSet(h) == {h[k].rec : k \in DOMAIN h}
\* the histories of the contributing data: a set, as sites may share them
Con(c) == {Recs(c[k]) : k \in DOMAIN c}
Obj(kind, o) == [kind |-> kind, hist |-> Recs(o.hist), con |-> Con(o.con), content |-> o.content]
\* made: what a step made of an input, as a sequence of <<step, content, result>>
Known(s, key) == {m \in Range(s.made) : m[1] = key[1] /\ m[2] = key[2]}
Src(s, e) == s.objs[e.i.src]

XApply(s, e) ==
    CASE e.ev = "start" -> [XInit EXCEPT !.objs = <<Obj("time", e.o)>>, !.live = e.o.live, !.recs = RecSet(e.o.hist)]
      [] e.ev = "step" /\ e.ok ->
            [s EXCEPT !.objs = Append(@, Obj(Steps[e.i.st][2], e.o)), !.live = e.o.live,
                      !.made = Append(@, <<e.i.key, Src(s, e).content, e.o.content>>), !.recs = @ \cup RecSet(e.o.hist)]
      [] e.ev = "write" /\ e.ok ->
            [s EXCEPT !.files = Append(@, [Src(s, e) EXCEPT !.hist = Recs(e.o.hist)]), !.live = e.o.live, !.recs = @ \cup RecSet(e.o.hist)]
      [] e.ev = "read" /\ e.ok ->
            [s EXCEPT !.objs = Append(@, Obj(s.files[e.i.f].kind, e.o)), !.live = e.o.live, !.recs = @ \cup RecSet(e.o.hist)]
      [] OTHER -> [s EXCEPT !.live = e.o.live]

Unaltered(s, e) == Len(e.o.live) >= Len(s.live) /\ SubSeq(e.o.live, 1, Len(s.live)) = s.live

\* the last record of a history is new, names the step and its parameters, and is from the time of the call
Truthful(s, e) ==
    LET h == e.o.hist IN
    /\ h # <<>>
    /\ LET r == h[Len(h)] IN r.rec \notin s.recs /\ r.name = e.i.name /\ r.params = e.i.params /\ r.during

\* own history and contributing histories after a step, with the record that was added
HistoryOf(s, e) ==
    LET h == Recs(e.o.hist)
        rec == IF h = <<>> THEN 0 ELSE h[Len(h)]
    IN  h = HistAfter(e.i.st, Src(s, e), rec)

CheckStep(s, e) ==
    IF e.i.bad THEN [bad_parameters_refused |-> ~e.ok, nothing_altered |-> Unaltered(s, e)]
    ELSE IF ~e.ok THEN [step_ran |-> FALSE, nothing_altered |-> Unaltered(s, e)]
    ELSE [nothing_altered |-> Unaltered(s, e),
          same_input_same_output |-> \A m \in Known(s, <<e.i.key, Src(s, e).content>>) : m[3] = e.o.content,
          history_is_input_and_one_record |-> HistoryOf(s, e),
          contributing_histories_kept |-> Con(e.o.con) = ConAfter(e.i.st, Src(s, e)),
          record_truthful |-> e.i.st = "gather" \/ Truthful(s, e)]

XCheck(s, e) ==
    CASE e.ev = "start" -> [prepared |-> e.ok]
      [] e.ev = "given" -> [nothing_altered |-> Unaltered(s, e)]   \* parameters are made for a step
      [] e.ev = "edit" ->   \* the user writes into a recording
            [results_are_their_own |-> \A k \in DOMAIN e.o.objs :
                (k \notin MayChange(s.objs, e.i.obj)) => e.o.objs[k][1] = e.o.objs[k][2]]
      [] e.ev = "step" -> CheckStep(s, e)
      [] e.ev = "write" ->
            IF e.i.bad THEN [bad_parameters_refused |-> ~e.ok, nothing_altered |-> Unaltered(s, e)]
            ELSE IF ~e.ok THEN [step_ran |-> FALSE, nothing_altered |-> Unaltered(s, e)]
            ELSE [nothing_altered |-> Unaltered(s, e),
                  history_is_input_and_one_record |-> e.o.hist # <<>> /\ Recs(e.o.hist) = Stored(Src(s, e), e.o.hist[Len(e.o.hist)].rec).hist,
                  record_truthful |-> Truthful(s, e)]
      [] e.ev = "read" ->
            IF ~e.ok THEN [step_ran |-> FALSE, nothing_altered |-> Unaltered(s, e)]
            ELSE [nothing_altered |-> Unaltered(s, e),
                  same_input_same_output |-> e.o.content = s.files[e.i.f].content,
                  history_is_input_and_one_record |-> e.o.hist # <<>> /\ Recs(e.o.hist) = Loaded(s.files[e.i.f], e.o.hist[Len(e.o.hist)].rec).hist,
                  record_truthful |-> Truthful(s, e)]
=============================================================================
