------------------------------ MODULE Project -------------------------------
(***************************************************************************)
(* A project on disk and in memory (C19, C21).                             *)
(*                                                                         *)
(* On disk: whether the project file is there, which data folders are      *)
(* there, measurement folders (by address <<site, measurement>>) with what *)
(* they hold, and what was computed: evaluation frequency data by          *)
(* <<site, configuration, measurement>>, solutions by <<site,              *)
(* configuration>>.  In memory: the measurements found by the last load.   *)
(* Every step has one address of its own; nothing else on disk changes.    *)
(***************************************************************************)
EXTENDS Base, TLC

Folders == {"time", "calibrate", "spectra", "evals", "features", "masks", "results", "images"}

\* which readers can read a measurement folder holding what
Kinds == [numpy    |-> {"numpy"},
          ascii    |-> {"ascii"},
          user     |-> {"user"},
          both     |-> {"numpy", "user"},
          nometa   |-> {},        \* no metadata file
          badjson  |-> {},        \* metadata file cut short
          nofield  |-> {},        \* metadata without sampling frequency
          nodata   |-> {},        \* a data file is missing
          wrongext |-> {},        \* data files of another type
          empty    |-> {}]
CanRead(kind) == Kinds[kind]

\* the first of the configured readers (a sequence) which can read a folder, 0 if none can
FirstReader(readers, kind) ==
    LET able == {k \in DOMAIN readers : readers[k] \in CanRead(kind)}
    IN  IF able = {} THEN 0 ELSE SetMin(able)

CreateRefused(disk) == disk.file
Created(disk) == [disk EXCEPT !.file = TRUE, !.whole = TRUE, !.dirs = Folders]

\* whole: the project file has not been cut short
LoadRefused(disk) == ~disk.file \/ ~disk.whole \/ disk.dirs # Folders
\* what a load finds: set of [site, meas, reader (its place), what]
Found(disk, readers) ==
    {[at |-> a, reader |-> FirstReader(readers, disk.meas[a].kind), what |-> disk.meas[a].what]
        : a \in {x \in DOMAIN disk.meas : FirstReader(readers, disk.meas[x].kind) # 0}}

\* what a measurement folder holds after processed time data was saved to it
AfterTimeWrite(kind) == IF "user" \in CanRead(kind) THEN "both" ELSE "numpy"

\* addresses a step writes to
TimeAddress(site, meas) == <<"time", site, meas>>
EvalsAddress(site, cfg, meas) == <<"evals", site, cfg, meas>>
ResultsAddress(site, cfg) == <<"results", site, cfg>>
=============================================================================
