----------------------------- MODULE T_Registry ------------------------------
(* Trace validation of serialisation against Registry (C23).                 *)
EXTENDS Registry, TraceKit

XInit == [reg |-> <<>>, objs |-> <<>>, dicts |-> <<>>]
Nothing == [x \in {} |-> 0]

Reg(s, names) == [n \in Range(names) |-> IF n \in DOMAIN s.reg THEN s.reg[n] ELSE 0]

XApply(s, e) ==
    CASE e.ev = "start" -> [reg |-> Nothing, objs |-> Nothing, dicts |-> Nothing]
      [] e.ev = "define" -> [s EXCEPT !.reg = (e.i.name :> e.i.version) @@ @]
      [] e.ev = "make" /\ e.ok -> [s EXCEPT !.objs = (e.i.obj :> [parts |-> e.o.parts, params |-> e.o.token, behaves |-> e.o.behaves]) @@ @]
      [] e.ev = "dump" /\ e.ok -> [s EXCEPT !.dicts = (e.i.dict :> [of |-> s.objs[e.i.obj], names |-> NamesOf(s.objs[e.i.obj].parts),
                                                                    params |-> e.o.token, whole |-> TRUE]) @@ @]
      [] e.ev = "damage" -> [s EXCEPT !.dicts[e.i.dict].whole = FALSE]
      [] e.ev = "load" /\ e.ok -> [s EXCEPT !.objs = (e.i.obj :> [parts |-> e.o.parts, params |-> e.o.token, behaves |-> e.o.behaves]) @@ @]
      [] OTHER -> s

CheckMake(s, e) ==
    IF ~e.ok THEN [made |-> FALSE] ELSE
    [made |-> e.o.parts = Resolve(Reg(s, e.i.names), e.i.names),
     parameters_as_given |-> e.o.given,
     cross_channels_default |-> e.o.cross]

CheckLoad(s, e) ==
    LET d == s.dicts[e.i.dict]  reg == Reg(s, d.names) IN
    \* dictionaries that were damaged name no class or one that nobody defined
    IF ~Builds(reg, d) THEN [unnamed_or_unknown_refused |-> ~e.ok, dictionary_unchanged |-> e.o.dict]
    ELSE IF ~e.ok THEN [named_and_known_is_built |-> FALSE, dictionary_unchanged |-> e.o.dict]
    ELSE [dictionary_unchanged |-> e.o.dict,
          same_types_in_order |-> e.o.parts = FromDict(reg, d).parts,
          same_parameters |-> e.o.token = d.of.params,
          same_dictionary_again |-> e.o.again,
          same_behaviour |-> e.o.parts = d.of.parts => e.o.behaves = d.of.behaves,
          built_objects_are_independent |-> e.o.apart]

XCheck(s, e) ==
    CASE e.ev = "make" -> CheckMake(s, e)
      [] e.ev = "load" -> CheckLoad(s, e)
      [] e.ev = "dump" -> [dumped |-> e.ok, original_unchanged |-> e.o.kept]
      [] e.ev = "kept" -> [objects_unchanged |-> \A x \in Range(e.o.objs) : x.token = s.objs[x.obj].params /\ x.parts = s.objs[x.obj].parts]
      [] OTHER -> [prepared |-> e.ok]
=============================================================================
