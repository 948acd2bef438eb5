---------------------------- MODULE MC_Accessors ----------------------------
(* Recordings that are written to channel by channel and copied; products    *)
(* that are asked for their parts.                                           *)
EXTENDS Accessors, TLC, Json
CONSTANTS Names, MaxObjs, MaxChans, Tokens, Depth, Recording, Shapes
VARIABLES objs, prod, hist, last
qvars == <<objs, prod, hist, last>>
Note(h) == Append(hist, IF Recording THEN h ELSE "")
Orders == {s \in UNION {[1 .. n -> Names] : n \in 1 .. MaxChans} : IsInjective(s)}
TypeOf(c) == IF c \in {"Ex", "Ey", "E1"} THEN "electric" ELSE "magnetic"
Fresh(s) == [chans |-> s, val |-> [k \in DOMAIN s |-> k], meta |-> [k \in DOMAIN s |-> 0], type |-> [k \in DOMAIN s |-> TypeOf(s[k])]]
QInit == /\ \E s \in Orders : \E k \in {"windowed", "spectra", "decimated"}, sh \in Shapes :
                objs = <<Fresh(s)>> /\ prod = [kind |-> k, chans |-> s, lev |-> sh]
         /\ hist = <<>> /\ last = <<0, "none">>
Write == \E k \in DOMAIN objs, c \in Names, v \in Tokens, ok \in {<<TRUE, TRUE>>, <<FALSE, TRUE>>, <<TRUE, FALSE>>} :
    /\ objs' = IF SetRefused(objs[k], c, ok[1], ok[2]) THEN objs ELSE [objs EXCEPT ![k] = Set(@, c, v)]
    /\ last' = <<k, c>> /\ hist' = Note([op |-> "set", obj |-> k, chan |-> c, val |-> v, size |-> ok[1], type |-> ok[2]])
WriteMeta == \E k \in DOMAIN objs, v \in Tokens : \E c \in Range(objs[k].chans) :
    /\ objs' = [objs EXCEPT ![k] = SetMeta(@, c, v)]
    /\ last' = <<k, c>> /\ hist' = Note([op |-> "meta", obj |-> k, chan |-> c, val |-> v, size |-> TRUE, type |-> TRUE])
Copy == \E k \in DOMAIN objs :
    /\ Len(objs) < MaxObjs /\ objs' = Append(objs, objs[k])
    /\ last' = <<0, "copy">> /\ hist' = Note([op |-> "copy", obj |-> k, chan |-> "", val |-> 0, size |-> TRUE, type |-> TRUE])
QNext == Len(hist) < Depth /\ (Write \/ WriteMeta \/ Copy) /\ UNCHANGED prod
QSpec == QInit /\ [][QNext]_qvars

\* a write is seen at its channel of its recording and nowhere else
OnlyThere == [][\A k \in DOMAIN objs : \A c \in Range(objs[k].chans) :
    (last' # <<k, c>>) => Get(objs'[k], c) = Get(objs[k], c)]_qvars
\* electric and magnetic channels share out the channels
ShareOut == \A k \in DOMAIN objs : LET r == objs[k] IN
    /\ Range(WithType(r, "electric")) \cup Range(WithType(r, "magnetic")) = Range(r.chans)
    /\ Len(WithType(r, "electric")) + Len(WithType(r, "magnetic")) = Len(r.chans)
Q(q, l, n, cs) == [q |-> q, lev |-> l, num |-> n, chans |-> cs]
\* however a value is reached it is the same one
Agree == hist = <<>> => \A l \in 0 .. Len(prod.lev) - 1 :
    LET L == Lev(prod, l)  C == Len(prod.chans) IN
    IF prod.kind = "decimated" THEN \A c \in 1 .. C, p \in 1 .. L.size : Level(prod, l)[c][p] = Val(prod, l, 0, c - 1, p - 1)
    ELSE \A w \in 1 .. L.n, c \in 1 .. C, p \in 1 .. L.size :
        LET v == Val(prod, l, w - 1, c - 1, p - 1) IN
        /\ Level(prod, l)[w][c][p] = v
        /\ Local(prod, l, w - 1)[c][p] = v
        /\ Answer(prod, Q("global", l, L.off + w - 1, <<>>))[c][p] = v
        /\ Chan(prod, l, prod.chans[c])[w][p] = v
        /\ Chans(prod, l, <<prod.chans[1], prod.chans[c]>>)[w][2][p] = v
        /\ Freq(prod, l, p - 1)[(w - 1) * C + c] = v
\* and values at different places differ
Differ == hist = <<>> => \A l, m \in DOMAIN prod.lev : l # m =>
    \A w \in 0 .. prod.lev[l].n - 1, x \in 0 .. prod.lev[m].n - 1 : Val(prod, l - 1, w, 0, 0) # Val(prod, m - 1, x, 0, 0)
Emit == (Recording /\ Len(hist) = Depth) => PrintT("@@CASE " \o ToJson([chans |-> objs[1].chans, ops |-> hist]))
S2 == {<<[n |-> 2, size |-> 3, off |-> 4]>>, <<[n |-> 3, size |-> 2, off |-> 0], [n |-> 1, size |-> 1, off |-> 7]>>}
S1 == {<<[n |-> 1, size |-> 1, off |-> 0]>>}
=============================================================================
