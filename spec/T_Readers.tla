----------------------------- MODULE T_Readers ------------------------------
(* Trace validation of readers against Readers (C34).                        *)
EXTENDS Readers, TraceKit

XInit == 0
XApply(s, e) == s

\* a user's reader which notes what it is asked; scaling turns x into 2x + 1, so the number of
\* times it was applied can be read off the data
CheckRead(e) ==
    LET q == e.i IN
    [parts_run_once_in_order |-> e.o.parts = Parts(q),
     answered_or_refused |-> e.ok = Answered(q),
     scaled_once_if_asked |-> (e.ok /\ ~q.metaOnly) => e.o.scaled = TimesScaled(q),
     samples_asked_for |-> (e.ok /\ ~q.metaOnly) =>
        /\ e.o.first = Range1(q)[1] /\ e.o.last = Range1(q)[2] /\ e.o.n = Length(Range1(q))
        /\ e.o.n_samples = Length(Range1(q)),
     times_of_the_samples |-> (e.ok /\ ~q.metaOnly) =>
        e.o.first_time = Range1(q)[1] /\ e.o.last_time = Range1(q)[2] /\ e.o.dev <= 1,
     metadata_returned |-> e.ok => e.o.is_metadata = q.metaOnly,
     given_metadata_unchanged |-> e.o.given_same]

\* built-in readers
CheckFolder(e) ==
    LET i == e.i IN
    [folder_accepted_or_refused |-> e.ok = (Accepts(i.folder) /\ i.extension),
     folder_untouched |-> e.o.untouched,
     values_of_every_channel |-> (e.ok /\ ~i.metaOnly) => e.o.values = i.values,
     metadata_of_folder |-> e.ok => e.o.meta = i.meta,
     data_files_listed |-> e.ok => e.o.lists_kept]

XCheck(s, e) ==
    CASE e.ev = "read" -> CheckRead(e)
      [] e.ev = "folder" -> CheckFolder(e)
=============================================================================
