------------------------------ MODULE T_Store ------------------------------
(* Trace validation of writers and readers against Store (C03, C28).         *)
(* Arrays and metadata are observed as tokens: equal tokens, equal values    *)
(* (type, shape and every bit included).                                     *)
EXTENDS Store, TraceKit

Prefix(a, b) == Len(a) <= Len(b) /\ \A k \in DOMAIN a : a[k] = b[k]

XInit == [disk |-> <<>>, prod |-> <<>>]

XApply(s, e) ==
    CASE e.ev = "start" -> [disk |-> [d \in 1 .. e.i.dirs |-> Absent], prod |-> e.i.products]
      [] e.ev = "junk" -> [s EXCEPT !.disk[e.i.d] = Junk]
      [] e.ev = "torn" -> [s EXCEPT !.disk[e.i.d] = [exists |-> TRUE, data |-> -1, meta |-> -1, recs |-> 0]]
      [] e.ev = "write" -> [s EXCEPT !.disk[e.i.d] = AfterWrite(s.disk[e.i.d], e.i.p, 0, e.i.overwrite)]
      [] e.ev = "copy" ->
            [s EXCEPT !.disk[e.i.e] = AfterWrite(s.disk[e.i.e], s.disk[e.i.d].data, RecsRead(s.disk[e.i.d], FALSE),
                                              e.i.overwrite)]
      [] OTHER -> s

CheckWrite(s, e, d) ==
    IF WriteRefused(s.disk[d], e.i.overwrite)
    THEN [existing_directory_refused |-> ~e.ok,
          refusal_leaves_directory_untouched |-> e.o.own_same,
          other_directories_untouched |-> e.o.others_same]
    ELSE [written |-> e.ok,
          directory_created |-> e.o.exists,
          other_directories_untouched |-> e.o.others_same]

CheckRead(s, e) ==
    LET dir == s.disk[e.i.d] IN
    IF Torn(dir) THEN [reading_changes_nothing |-> e.o.own_same /\ e.o.others_same]
    ELSE IF ~Readable(dir) THEN [nothing_to_read_is_an_error |-> ~e.ok]
    ELSE IF ~e.ok THEN [last_product_read_back |-> FALSE]
    ELSE LET p == s.prod[dir.data] IN
         [values_unchanged |-> e.i.meta_only \/ e.o.values = p.values,
          metadata_unchanged |-> e.o.meta = p.meta,
          \* the product's own records come first, then those of the writers and readers
          history_read_back |-> /\ Len(e.o.recs) = Len(p.recs) + RecsRead(dir, e.i.meta_only)
                                /\ Prefix(p.recs, e.o.recs),
          reading_changes_nothing |-> e.o.own_same /\ e.o.others_same]

XCheck(s, e) ==
    CASE e.ev = "start" -> [prepared |-> e.ok]
      [] e.ev \in {"junk", "torn"} -> [prepared |-> e.ok]
      [] e.ev = "write" -> CheckWrite(s, e, e.i.d)
      [] e.ev = "copy" -> CheckWrite(s, e, e.i.e)
      [] e.ev = "read" -> CheckRead(s, e)
      [] e.ev = "ascii" ->     \* the written channel files hold the channel's values
            [written |-> e.ok, ascii_values |-> e.ok => e.o.same, metadata_unchanged |-> e.ok => e.o.meta_same]
=============================================================================
