------------------------------ MODULE Objects -------------------------------
(***************************************************************************)
(* Data objects, processing steps and histories (C04, C05).                *)
(*                                                                         *)
(* An object is [kind, hist, con]: its own history (a sequence of records) *)
(* and the histories of the data contributing to it.  Steps make new       *)
(* objects; nothing changes an existing one.                               *)
(***************************************************************************)
EXTENDS Base, TLC

\* kinds of steps: <<from kind, to kind>>
Steps == [process   |-> <<"time", "time">>,
          decimate  |-> <<"time", "dec">>,
          window    |-> <<"dec", "win">>,
          fourier   |-> <<"win", "spec">>,
          smooth    |-> <<"spec", "spec">>,
          evals     |-> <<"spec", "evals">>,
          calibrate |-> <<"evals", "evals">>,
          gather    |-> <<"evals", "gath">>,
          spectra_regression  |-> <<"evals", "reg">>,
          gathered_regression |-> <<"gath", "reg">>,
          \* a step of the user's own on regression data
          refine    |-> <<"reg", "reg">>,
          solve     |-> <<"reg", "sol">>]
Storable == {"time", "dec", "win", "spec", "evals"}

\* histories of the result of a step with record rec on an object
HistAfter(st, o, rec) ==
    CASE st = "gather" -> <<>>
      [] st \in {"spectra_regression", "gathered_regression"} -> <<rec>>
      [] OTHER -> Append(o.hist, rec)
ConAfter(st, o) ==
    CASE st \in {"gather", "spectra_regression"} -> {o.hist}
      [] OTHER -> o.con
Result(st, o, rec) == [kind |-> Steps[st][2], hist |-> HistAfter(st, o, rec), con |-> ConAfter(st, o)]

\* Writing into a recording (number k of objs) may show in the levels and windows made of
\* recordings, which are views, but in no other recording, spectra or later product.
MayChange(objs, k) == {k} \cup {j \in DOMAIN objs : objs[j].kind \in {"dec", "win"}}

\* what is stored by a writer, and what a reader makes of it
Stored(o, rec) == [o EXCEPT !.hist = Append(@, rec)]
Loaded(f, rec) == [f EXCEPT !.hist = Append(@, rec)]
=============================================================================
