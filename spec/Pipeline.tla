------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* Processing of one measurement (C22).                                    *)
(*                                                                         *)
(* A configuration is [readers, nt, ns]: what each configured reader does  *)
(* with the folder, how many time and how many spectra processors there    *)
(* are.  An entry point runs a fixed sequence of steps; every step is      *)
(* named and numbered: <<"time", 2>> is the second time processor.         *)
(***************************************************************************)
EXTENDS Base

\* what a reader may do with a folder: only "reads" gives data
ReaderKinds == {"reads", "nometa", "nodata", "breaks", "metaonly"}
\* quick processing takes the first reader which reads; a project chose it, by the metadata, when it was loaded
FirstThat(readers, kinds) ==
    LET able == {k \in DOMAIN readers : readers[k] \in kinds} IN IF able = {} THEN 0 ELSE SetMin(able)
QuickReader(readers) == FirstThat(readers, {"reads"})
ProjectReader(readers) == FirstThat(readers, {"reads", "nodata", "metaonly"})

Entries == {"quick_read", "quick_view", "quick_view_dec", "quick_spectra", "quick_tf", "quick_tf_cal", "process_time", "process_time_to_evals", "process_evals_to_tf"}
InProject(entry) == entry \in {"process_time", "process_time_to_evals", "process_evals_to_tf"}
Stores(entry) == InProject(entry)

TimeSteps(nt) == [k \in 1 .. nt |-> <<"time", k>>]
SpecSteps(ns) == [k \in 1 .. ns |-> <<"spectra", k>>]
ToSpectra(nt) == TimeSteps(nt) \o <<<<"decimate", 1>>, <<"window", 1>>, <<"fourier", 1>>>>
ToEvals(nt, ns) == ToSpectra(nt) \o SpecSteps(ns) \o <<<<"evals", 1>>>>
Solve == <<<<"prepare", 1>>, <<"solve", 1>>>>

\* the steps after reading
Steps(entry, nt, ns) ==
    CASE entry = "quick_read" -> <<>>
      [] entry = "quick_view" -> TimeSteps(nt)
      [] entry = "quick_view_dec" -> TimeSteps(nt) \o <<<<"decimate", 1>>>>
      [] entry = "quick_spectra" -> ToSpectra(nt)
      [] entry = "quick_tf" -> ToEvals(nt, ns) \o Solve
      [] entry = "quick_tf_cal" -> ToEvals(nt, ns) \o <<<<"calibrate", 1>>>> \o Solve
      [] entry = "process_time" -> TimeSteps(nt)
      [] entry = "process_time_to_evals" -> ToEvals(nt, ns) \o <<<<"calibrate", 1>>>>
      [] entry = "process_evals_to_tf" -> Solve

\* the step that fails, 0 when none does, is known by its place in the steps; those before it and itself were started
Started(steps, fault) == IF fault = 0 THEN steps ELSE SubSeq(steps, 1, fault)
=============================================================================
