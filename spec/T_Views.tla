------------------------------ MODULE T_Views ------------------------------
(* Trace validation of readers and Subsection against Views (C02).           *)
(* Sample i of channel c of the base recording holds 100000*c + i, so the    *)
(* samples present are read off the data itself; times are observed in ticks.*)
EXTENDS Views, TraceKit

XInit == [store |-> <<0, 0>>, mem |-> <<0, 0>>, K |-> 1]

Source(s, e) == IF e.ev = "sub" THEN s.mem ELSE s.store

XApply(s, e) ==
    CASE e.ev = "start" -> [store |-> <<0, e.i.n - 1>>, mem |-> <<0, e.i.n - 1>>, K |-> e.i.K]
      [] e.ev = "write" -> [s EXCEPT !.store = s.mem]
      [] OTHER -> IF Refused(Source(s, e), s.K, e.i.from, e.i.to) THEN s
                  ELSE [s EXCEPT !.mem = Part(Source(s, e), s.K, e.i.from, e.i.to)]

\* the observed recording o is exactly the view v
IsView(o, v, k) ==
    [channels_kept |-> o.chans = o.want_chans,
     samples_exact |-> \A c \in DOMAIN o.data :
        LET d == o.data[c] IN
        /\ d.len = Length(v)
        /\ d.first = v[1] /\ d.last = v[2] /\ d.steps_of_one /\ d.chan = c,
     every_channel_present |-> Len(o.data) = Len(o.want_chans),
     n_samples_truthful |-> o.n_samples = Length(v),
     first_time_truthful |-> o.first.t = v[1] * k /\ o.first.dev = 0,
     last_time_truthful |-> o.last.t = v[2] * k /\ o.last.dev = 0,
     fs_kept |-> o.fs_kept]

XCheck(s, e) ==
    IF e.ev = "start" THEN [stored |-> e.ok]
    ELSE IF e.ev = "write" THEN [written |-> e.ok]
    ELSE LET v == Source(s, e) IN
         IF Refused(v, s.K, e.i.from, e.i.to)
         THEN [refused |-> ~e.ok]
         ELSE IF ~e.ok THEN [answered |-> FALSE]
         ELSE IsView(e.o, Part(v, s.K, e.i.from, e.i.to), s.K)
=============================================================================
