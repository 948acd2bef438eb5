----------------------------- MODULE T_Accessors -----------------------------
(* Trace validation of channel, level, window and frequency access (C26).    *)
EXTENDS Accessors, TraceKit

XInit == [objs |-> <<>>, prod |-> <<>>]

Rec(i) == [chans |-> i.chans, val |-> [k \in DOMAIN i.chans |-> k], meta |-> [k \in DOMAIN i.chans |-> 0], type |-> i.types]
Known(s, e) == e.i.obj \in DOMAIN s.objs
SetOk(s, e) == ~SetRefused(s.objs[e.i.obj], e.i.chan, e.i.size, e.i.type)

XApply(s, e) ==
    CASE e.ev = "start" -> [s EXCEPT !.objs = <<Rec(e.i)>>]
      [] e.ev = "prod" -> [s EXCEPT !.prod = e.i.prod]
      [] e.ev = "copy" /\ e.ok -> [s EXCEPT !.objs = Append(@, s.objs[e.i.obj])]
      [] e.ev = "set" /\ SetOk(s, e) -> [s EXCEPT !.objs[e.i.obj] = Set(@, e.i.chan, e.i.val)]
      [] e.ev = "meta" /\ e.ok -> [s EXCEPT !.objs[e.i.obj] = SetMeta(@, e.i.chan, e.i.val)]
      [] OTHER -> s

\* what every recording was seen to hold
Seen(o, objs) ==
    [channels_hold_what_was_written |-> Len(o.objs) = Len(objs) /\ \A k \in DOMAIN objs :
        o.objs[k].vals = objs[k].val /\ o.objs[k].items = objs[k].val,
     indices_follow_channel_order |-> \A k \in DOMAIN o.objs : o.objs[k].index = [j \in DOMAIN objs[k].chans |-> j - 1],
     channel_metadata_by_name |-> \A k \in DOMAIN o.objs : o.objs[k].metas = objs[k].meta]

CheckTypes(r, o) ==
    [electric_channels |-> o.electric = WithType(r, "electric") /\ o.any_electric = (o.electric # <<>>),
     magnetic_channels |-> o.magnetic = WithType(r, "magnetic") /\ o.any_magnetic = (o.magnetic # <<>>),
     channels_of_type |-> \A k \in DOMAIN o.types : o.of_type[k] = WithType(r, o.types[k]),
     types_listed |-> Range(o.types) = Range(r.type) /\ IsInjective(o.types)]

CheckTimes(o, i) ==
    [times_of_the_level |-> Len(o.t) = Len(i.want) /\ \A k \in DOMAIN o.t : o.t[k].t = i.want[k] /\ o.t[k].dev <= 2000]

\* thousandths of a sample period or of the sampling frequency
NumberOf(name, n) ==
    CASE name = "dt" -> 1000
      [] name = "duration" -> (n - 1) * 1000
      [] name = "nyquist" -> 500
CheckNumbers(o, i) ==
    [follows_from_sampling |-> o.v = [k \in DOMAIN i.names |-> NumberOf(i.names[k], i.n)],
     channels_counted |-> o.n_chans = i.n_chans]

XCheck(s, e) ==
    CASE e.ev = "start" -> [prepared |-> e.ok]
      [] e.ev = "prod" -> [prepared |-> e.ok]
      [] e.ev = "copy" -> [copied |-> e.ok] @@ (IF e.ok THEN Seen(e.o, Append(s.objs, s.objs[e.i.obj])) ELSE <<>>)
      [] e.ev = "set" ->
            (IF SetOk(s, e) THEN [written |-> e.ok] ELSE [bad_write_refused |-> ~e.ok])
                @@ Seen(e.o, XApply(s, e).objs)
      [] e.ev = "meta" -> [written |-> e.ok] @@ (IF e.ok THEN Seen(e.o, XApply(s, e).objs) ELSE <<>>)
      [] e.ev = "numbers" -> IF ~e.ok THEN [answered |-> FALSE] ELSE CheckNumbers(e.o, e.i)
      [] e.ev = "get" ->
            IF Has(s.objs[e.i.obj].chans, e.i.chan)
            THEN [channel_by_name |-> e.ok /\ e.o.val = Get(s.objs[e.i.obj], e.i.chan)]
            ELSE [unknown_channel_refused |-> ~e.ok]
      [] e.ev = "types" -> IF ~e.ok THEN [answered |-> FALSE] ELSE CheckTypes(s.objs[e.i.obj], e.o)
      [] e.ev = "ask" ->
            IF QueryRefused(s.prod, e.i.x) THEN [outside_refused |-> ~e.ok]
            ELSE IF ~e.ok THEN [answered |-> FALSE]
            ELSE [right_part |-> e.o.v = Answer(s.prod, e.i.x)]
      [] e.ev = "times" ->
            IF ~e.i.known THEN [outside_refused |-> ~e.ok]
            ELSE IF ~e.ok THEN [answered |-> FALSE] ELSE CheckTimes(e.o, e.i)
=============================================================================
