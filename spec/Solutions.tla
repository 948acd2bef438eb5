----------------------------- MODULE Solutions ------------------------------
(***************************************************************************)
(* The store of transfer function solutions of a project (C18).            *)
(*                                                                         *)
(* An address is [site, cfg, fs, tf, var, post]; post = "-" is no postfix. *)
(* The store maps the addresses which have a solution to the last solution *)
(* computed there; solutions are opaque (tokens).                          *)
(***************************************************************************)
EXTENDS Base, TLC

Empty == [a \in {} |-> 0]
\* computing a solution changes the solution at its own address, and nothing else
AfterCompute(store, a, sol) == [b \in DOMAIN store \union {a} |-> IF b = a THEN sol ELSE store[b]]
\* what is found at an address; 0 is an error
Found(store, a) == IF a \in DOMAIN store THEN store[a] ELSE 0

\* how the implementation names the file of an address (names without blanks and capitals)
FileOf(a) ==
    << a.site, a.cfg,
       a.fs \o "_" \o a.tf \o (IF a.var = "" THEN "" ELSE "_" \o a.var) \o (IF a.post = "-" THEN "" ELSE "_" \o a.post) >>
=============================================================================
