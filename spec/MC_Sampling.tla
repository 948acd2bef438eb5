---------------------------- MODULE MC_Sampling ----------------------------
EXTENDS Sampling, TLC, Json

(* The design: a recording that grows while queries are answered ---- *)
CONSTANTS MaxN, MaxK
VARIABLES n, K, qa, qb
svars == <<n, K, qa, qb>>

SInit == /\ K \in 1..MaxK
         /\ n = 1
         /\ qa \in -2 .. MaxN * MaxK + 1
         /\ qb \in -2 .. MaxN * MaxK + 1

Record == n < MaxN /\ n' = n + 1 /\ UNCHANGED <<K, qa, qb>>
SNext == Record
SSpec == SInit /\ [][SNext]_svars

InRange == {i \in 0..(n - 1) : qa <= SampleTick(i, K) /\ SampleTick(i, K) <= qb}

\* the time of a sample belongs to that sample, as start and as end
RoundTrip == \A i \in 0..(n - 1) :
    /\ ~FromRefused(n, K, i * K) /\ FromSample(n, K, i * K) = i
    /\ ~ToRefused(n, K, i * K) /\ ToSample(n, K, i * K) = i

\* start and end together select exactly the samples of the closed interval
SelectsInterval ==
    LET sel == IF FromRefused(n, K, qa) \/ ToRefused(n, K, qb) THEN {}
               ELSE FromSample(n, K, qa) .. ToSample(n, K, qb)
    IN  sel = InRange

Bounded ==
    /\ ~FromRefused(n, K, qa) => FromSample(n, K, qa) \in 0..(n - 1)
    /\ ~ToRefused(n, K, qb) => ToSample(n, K, qb) \in 0..(n - 1)

\* recording more samples never changes the answer for a start time
StartStable == [][~FromRefused(n, K, qa) => FromSample(n', K', qa') = FromSample(n, K, qa)]_svars

\* every reached state is also a test case for the implementation
Emit == PrintT("@@CASE " \o ToJson([n |-> n, K |-> K, qa |-> qa, qb |-> qb]))
=============================================================================
