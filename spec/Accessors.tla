------------------------------ MODULE Accessors ------------------------------
(***************************************************************************)
(* Channels, levels, windows and frequencies by name and number (C26).     *)
(*                                                                         *)
(* A recording [chans, val, type]: channel names in order, and in step     *)
(* with them what each channel holds (a token) and its type.               *)
(***************************************************************************)
EXTENDS Base

Index(chans, c) == CHOOSE k \in DOMAIN chans : chans[k] = c
Has(chans, c) == c \in Range(chans)

Get(r, c) == r.val[Index(r.chans, c)]
SetRefused(r, c, sizeok, typeok) == ~Has(r.chans, c) \/ ~sizeok \/ ~typeok
Set(r, c, v) == [r EXCEPT !.val[Index(r.chans, c)] = v]
SetMeta(r, c, v) == [r EXCEPT !.meta[Index(r.chans, c)] = v]

RECURSIVE Pick(_, _)
\* elements of s at the places p holds for, in order
Pick(s, p) == IF s = <<>> THEN <<>> ELSE (IF Head(p) THEN <<Head(s)>> ELSE <<>>) \o Pick(Tail(s), Tail(p))
WithType(r, t) == Pick(r.chans, [k \in DOMAIN r.chans |-> r.type[k] = t])

\* the value every product has at level l, window w, channel number c and position p
\* (all from 0), a quarter turn on for each of window, channel and position in spectra
Code(l, w, c, p) == l * 1000000 + w * 10000 + c * 100 + p
Turned(l, w, c, p) == Code(l, w, c, p) + 100000000 * ((w + c + p) % 4)

\* a product [kind, chans, lev]: levels [n, size, off]: windows, positions (samples in a
\* window or frequencies) and the global number of window 0
Val(prod, l, w, c, p) == IF prod.kind = "spectra" THEN Turned(l, w, c, p) ELSE Code(l, w, c, p)
IsLevel(prod, l) == l >= 0 /\ l < Len(prod.lev)
Lev(prod, l) == prod.lev[l + 1]
Nums(n) == [k \in 1 .. n |-> k - 1]
Over(seq, F(_)) == [k \in DOMAIN seq |-> F(seq[k])]

AtWin(prod, l, w, cs) == LET L == Lev(prod, l) IN
    [c \in DOMAIN cs |-> [p \in 1 .. L.size |-> Val(prod, l, w, cs[c], p - 1)]]
AllChans(prod) == Nums(Len(prod.chans))
Level(prod, l) ==
    IF prod.kind = "decimated" THEN AtWin(prod, l, 0, AllChans(prod))
    ELSE [w \in 1 .. Lev(prod, l).n |-> AtWin(prod, l, w - 1, AllChans(prod))]
Local(prod, l, w) == AtWin(prod, l, w, AllChans(prod))
Chan(prod, l, c) == [w \in 1 .. Lev(prod, l).n |-> AtWin(prod, l, w - 1, <<Index(prod.chans, c) - 1>>)[1]]
Chans(prod, l, cs) == [w \in 1 .. Lev(prod, l).n |-> AtWin(prod, l, w - 1, [k \in DOMAIN cs |-> Index(prod.chans, cs[k]) - 1])]
\* every window, every channel
Freq(prod, l, p) == LET C == Len(prod.chans) IN
    [k \in 1 .. Lev(prod, l).n * C |-> Val(prod, l, (k - 1) \div C, (k - 1) % C, p)]

\* a question [q, lev, num, chans]
QueryRefused(prod, x) ==
    \/ ~IsLevel(prod, x.lev)
    \/ /\ x.q = "local" /\ x.num \notin 0 .. (Lev(prod, x.lev).n - 1)
    \/ /\ x.q = "global" /\ (x.num - Lev(prod, x.lev).off) \notin 0 .. (Lev(prod, x.lev).n - 1)
    \/ /\ x.q = "freq" /\ x.num \notin 0 .. (Lev(prod, x.lev).size - 1)
    \/ /\ x.q \in {"chan", "chans"} /\ \E k \in DOMAIN x.chans : ~Has(prod.chans, x.chans[k])
Answer(prod, x) ==
    CASE x.q = "level" -> Level(prod, x.lev)
      [] x.q = "local" -> Local(prod, x.lev, x.num)
      [] x.q = "global" -> Local(prod, x.lev, x.num - Lev(prod, x.lev).off)
      [] x.q = "chan" -> Chan(prod, x.lev, x.chans[1])
      [] x.q = "chans" -> Chans(prod, x.lev, x.chans)
      [] x.q = "freq" -> Freq(prod, x.lev, x.num)
      [] x.q = "magphs" -> Level(prod, x.lev)
=============================================================================
