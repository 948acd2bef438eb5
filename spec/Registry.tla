------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Processes, transfer functions and configurations as dictionaries (C23). *)
(*                                                                         *)
(* An object is a tree of named parts, written in preorder: a sequence of  *)
(* <<class name, version>>; its parameters are one value.  A dictionary    *)
(* holds names and parameters, no versions: a name stands for the class    *)
(* that was defined last under it.  Built-in classes have version 0.       *)
(***************************************************************************)
EXTENDS Base

Known(reg, names) == \A k \in DOMAIN names : names[k] \in DOMAIN reg
Resolve(reg, names) == [k \in DOMAIN names |-> <<names[k], reg[names[k]]>>]
NamesOf(parts) == [k \in DOMAIN parts |-> parts[k][1]]

\* dictionary of an object and object of a dictionary
ToDict(obj) == [names |-> NamesOf(obj.parts), params |-> obj.params, whole |-> TRUE]
Builds(reg, d) == d.whole /\ Known(reg, d.names)
FromDict(reg, d) == [parts |-> Resolve(reg, d.names), params |-> d.params]
=============================================================================
