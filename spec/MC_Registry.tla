----------------------------- MODULE MC_Registry -----------------------------
(* The design: classes are defined by the user, objects are made, turned to  *)
(* dictionaries, and built from them again, any number of times.             *)
EXTENDS Registry, TLC, Json
CONSTANTS Builtin, UserNames, MaxVersion, MaxParts, MaxObjs, Params, Depth, Recording
VARIABLES reg, objs, dicts, hist
rvars == <<reg, objs, dicts, hist>>
Note(h) == IF Recording THEN Append(hist, h) ELSE hist
RInit == reg = [b \in Builtin |-> 0] /\ objs = <<>> /\ dicts = <<>> /\ hist = <<>>

Define == \E n \in UserNames :
    LET v == IF n \in DOMAIN reg THEN reg[n] + 1 ELSE 1 IN
    /\ v <= MaxVersion /\ reg' = (n :> v) @@ reg
    /\ hist' = Note([op |-> "define", name |-> n]) /\ UNCHANGED <<objs, dicts>>
Make == \E n \in 1 .. MaxParts : \E names \in [1 .. n -> DOMAIN reg], p \in Params :
    /\ Len(objs) < MaxObjs
    /\ objs' = Append(objs, [parts |-> Resolve(reg, names), params |-> p])
    /\ hist' = Note([op |-> "make", names |-> names]) /\ UNCHANGED <<reg, dicts>>
Dump == \E k \in DOMAIN objs :
    /\ Len(dicts) < MaxObjs /\ dicts' = Append(dicts, ToDict(objs[k]))
    /\ hist' = Note([op |-> "dump", obj |-> k]) /\ UNCHANGED <<reg, objs>>
\* a name is taken out of a dictionary, or becomes one nobody defined
Damage == \E k \in DOMAIN dicts : \E how \in {"noname", "unknown"} :
    /\ dicts[k].whole /\ dicts' = [dicts EXCEPT ![k].whole = FALSE]
    /\ hist' = Note([op |-> "damage", dict |-> k, how |-> how]) /\ UNCHANGED <<reg, objs>>
Load == \E k \in DOMAIN dicts :
    /\ Len(objs) < MaxObjs
    /\ objs' = IF Builds(reg, dicts[k]) THEN Append(objs, FromDict(reg, dicts[k])) ELSE objs
    /\ hist' = Note([op |-> "load", dict |-> k]) /\ UNCHANGED <<reg, dicts>>
RNext == Define \/ Make \/ Dump \/ Damage \/ Load
RSpec == RInit /\ [][RNext]_rvars

\* as long as nothing was defined anew, an object survives the way to a dictionary and back
RoundTrip == \A k \in DOMAIN objs :
    (\A j \in DOMAIN objs[k].parts : reg[objs[k].parts[j][1]] = objs[k].parts[j][2])
        => Builds(reg, ToDict(objs[k])) /\ FromDict(reg, ToDict(objs[k])) = objs[k]
\* and in any case names, order and parameters survive
NamesSurvive == \A k \in DOMAIN objs : NamesOf(FromDict(reg, ToDict(objs[k])).parts) = NamesOf(objs[k].parts)
\* building leaves dictionaries alone
DictsKept == [][\A k \in DOMAIN dicts : dicts'[k] = dicts[k] \/ (dicts[k].whole /\ ~dicts'[k].whole /\ objs' = objs)]_rvars
Emit == (Recording /\ Len(hist) = Depth) => PrintT("@@CASE " \o ToJson([ops |-> hist]))
Bound == Len(hist) <= Depth
\* in replayed runs most steps are loads of what is there
Busy == RInit /\ [][((Len(hist) % 5) = 0 /\ Define) \/ ((Len(hist) % 3) = 1 /\ Make) \/ (Len(dicts) < Len(objs) /\ Dump) \/ (Len(hist) > 8 /\ (Len(hist) % 6) = 0 /\ Damage) \/ Load]_rvars
=============================================================================
