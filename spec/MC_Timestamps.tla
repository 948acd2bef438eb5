--------------------------- MODULE MC_Timestamps ---------------------------
(* The design on a small clock: a clock is advanced by any step and its     *)
(* readings are stored as text and read back.                               *)
EXTENDS Timestamps, TLC, Json
CONSTANTS Days
VARIABLES now, last, text
tvars == <<now, last, text>>

Limbs == [1 .. NL -> 0 .. Unit - 1]
Steps == {<<0, s>> \o f : s \in 0 .. 1, f \in Limbs}

TInit == now = Zero /\ last = Zero /\ text = FracText(Zero)
Tick == \E d \in Steps :
    /\ now' = Plus(now, d) /\ now'[1] < Days
    /\ last' = now /\ text' = FracText(now')
TSpec == TInit /\ [][Tick]_tvars

Shape == IsInstant(now) /\ Len(text) = NL * W
\* read back it is the same instant
ReadBack == FracParse(text) = SubSeq(now, 3, 2 + NL)
\* exactly one of before, equal, after; differences restore the later instant
Order == /\ ~Earlier(now, last)
         /\ (Earlier(last, now) \/ last = now)
         /\ ~(Earlier(last, now) /\ last = now)
Difference == /\ Plus(last, Minus(now, last)) = now
              /\ IsInstant(Minus(now, last)) /\ Minus(now, last)[1] >= 0
              /\ (Minus(now, last) = Zero <=> now = last)
\* text of the same second sorts like the instants
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE
                 ELSE Head(a) < Head(b) \/ (Head(a) = Head(b) /\ LexLess(Tail(a), Tail(b)))
TextOrder == (now[1] = last[1] /\ now[2] = last[2]) =>
                (Earlier(last, now) <=> LexLess(FracText(last), text))

\* the civil calendar counts days one by one
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                     [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
                     [] OTHER -> 31
ASSUME \A y \in 1896 .. 2110 : \A m \in 1 .. 12 :
    DayNumber(IF m = 12 THEN y + 1 ELSE y, IF m = 12 THEN 1 ELSE m + 1, 1)
        = DayNumber(y, m, 1) + MonthDays(y, m)
=============================================================================
