---------------------------- MODULE Timestamps ----------------------------
(***************************************************************************)
(* High resolution timestamps (property C27).                              *)
(*                                                                         *)
(* An instant is <<day, second of the day, limb 1, ..., limb NL>>: NL      *)
(* groups of W decimal digits hold the fraction of the second (the code    *)
(* has W = 6: micro-, pico-, atto- and yoctoseconds).  Its text is the     *)
(* civil date and time followed by the groups, zero padded.                *)
(***************************************************************************)
EXTENDS Base
CONSTANTS W, NL, DaySeconds, Ten

Unit == IPow(Ten, W)

IsInstant(t) == /\ Len(t) = 2 + NL
                /\ t[2] \in 0 .. DaySeconds - 1
                /\ \A k \in 3 .. 2 + NL : t[k] \in 0 .. Unit - 1

\* limit of a position (the day has none)
Limit(k) == IF k = 2 THEN DaySeconds ELSE Unit

RECURSIVE Before(_, _, _)
Before(a, b, k) ==
    IF k > 2 + NL THEN FALSE
    ELSE a[k] < b[k] \/ (a[k] = b[k] /\ Before(a, b, k + 1))
Earlier(a, b) == Before(a, b, 1)

\* carries from the last position up
RECURSIVE Norm(_, _)
Norm(t, k) ==
    IF k = 1 THEN t
    ELSE LET c == t[k] \div Limit(k)
         IN  Norm([t EXCEPT ![k] = t[k] % Limit(k), ![k - 1] = t[k - 1] + c], k - 1)
Plus(a, d) == Norm([k \in 1 .. 2 + NL |-> a[k] + d[k]], 2 + NL)
Minus(a, b) == Norm([k \in 1 .. 2 + NL |-> a[k] - b[k]], 2 + NL)
Zero == [k \in 1 .. 2 + NL |-> 0]

Digits(x, w) == [k \in 1 .. w |-> (x \div IPow(Ten, w - k)) % Ten]
RECURSIVE Number(_)
Number(ds) == IF ds = <<>> THEN 0
              ELSE Number(SubSeq(ds, 1, Len(ds) - 1)) * Ten + ds[Len(ds)]

\* text of the fraction, groups only
FracText(t) == FlattenSeq([k \in 1 .. NL |-> Digits(t[2 + k], W)])
FracParse(ds) == [k \in 1 .. NL |-> Number(SubSeq(ds, (k - 1) * W + 1, k * W))]

\* civil calendar: days since 0000-03-01 of a date (Gregorian)
DayNumber(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        mm == IF m <= 2 THEN m + 9 ELSE m - 3
    IN  365 * yy + yy \div 4 - yy \div 100 + yy \div 400 + (153 * mm + 2) \div 5 + d - 1

\* fields <<Y, M, D, h, m, s, limb 1, ..., limb NL>>
OfFields(f) == <<DayNumber(f[1], f[2], f[3]), f[4] * 3600 + f[5] * 60 + f[6]>> \o SubSeq(f, 7, 6 + NL)

\* the text: digits as numbers, other characters as 1000 + their code
DASH == <<1045>>
SPACE == <<1032>>
COLON == <<1058>>
POINT == <<1046>>
UNDER == <<1095>>
CivilText(f) ==
    Digits(f[1], 4) \o DASH \o Digits(f[2], 2) \o DASH \o Digits(f[3], 2) \o SPACE
    \o Digits(f[4], 2) \o COLON \o Digits(f[5], 2) \o COLON \o Digits(f[6], 2) \o POINT
    \o FlattenSeq([k \in 1 .. NL |-> (IF k = 1 THEN <<>> ELSE UNDER) \o Digits(f[6 + k], W)])
=============================================================================
