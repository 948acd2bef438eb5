------------------------------- MODULE Views -------------------------------
(***************************************************************************)
(* Partial reads and subsections of a recording (property C02).            *)
(*                                                                         *)
(* A stored recording and the recordings in memory that were read from it  *)
(* are views of one base recording: closed ranges <<lo, hi>> of its sample *)
(* numbers.  Limits are times, in ticks relative to the base recording's   *)
(* first sample (K ticks to a sample period, see Sampling), or sample      *)
(* numbers relative to the view they are applied to; a time limit takes    *)
(* precedence over a sample limit at the same end.                         *)
(***************************************************************************)
EXTENDS Sampling

\* a limit [hast, q, hass, s]: a time q if hast, a sample s if hass
NoLimit == [hast |-> FALSE, q |-> 0, hass |-> FALSE, s |-> 0]
TimeLimit(q) == [hast |-> TRUE, q |-> q, hass |-> FALSE, s |-> 0]
SampleLimit(s) == [hast |-> FALSE, q |-> 0, hass |-> TRUE, s |-> s]

Length(v) == v[2] - v[1] + 1

FromBad(v, K, f) ==
    IF f.hast THEN FromRefused(Length(v), K, f.q - v[1] * K)
    ELSE f.hass /\ f.s \notin 0 .. (Length(v) - 1)
ToBad(v, K, t) ==
    IF t.hast THEN ToRefused(Length(v), K, t.q - v[1] * K)
    ELSE t.hass /\ t.s \notin 0 .. (Length(v) - 1)

FromNo(v, K, f) ==
    IF f.hast THEN FromSample(Length(v), K, f.q - v[1] * K)
    ELSE IF f.hass THEN f.s ELSE 0
ToNo(v, K, t) ==
    IF t.hast THEN ToSample(Length(v), K, t.q - v[1] * K)
    ELSE IF t.hass THEN t.s ELSE Length(v) - 1

\* refused: a limit outside the recording, or fewer than two samples left
Refused(v, K, f, t) ==
    \/ FromBad(v, K, f)
    \/ ToBad(v, K, t)
    \/ FromNo(v, K, f) >= ToNo(v, K, t)

Part(v, K, f, t) == <<v[1] + FromNo(v, K, f), v[1] + ToNo(v, K, t)>>
=============================================================================
