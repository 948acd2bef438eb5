----------------------------- MODULE MC_Readers ------------------------------
(* The design: the reader as a machine that takes one step at a time; what it *)
(* has done at the end is Parts.                                              *)
EXTENDS Readers, TLC, Json
CONSTANTS N, Ks, Emitting
VARIABLES q, at, done
rvars == <<q, at, done>>

Limits(K) == {NoLimit} \cup {TimeLimit(t) : t \in {-1, 0, 1, K, N * K}} \cup {SampleLimit(s) : s \in {-1, 0, 1, N - 1, N}}
             \cup {[hast |-> TRUE, q |-> K, hass |-> TRUE, s |-> 0]}
RInit == /\ \E K \in Ks : \E m, g, s \in BOOLEAN, f, t \in Limits(K), x \in {"none", "metadata", "data", "scale"} :
               q = [n |-> N, K |-> K, metaOnly |-> m, given |-> g, scalings |-> s, from |-> f, to |-> t, fails |-> x]
         /\ at = "start" /\ done = <<>>
Step(a, b) == at = a /\ at' = b /\ UNCHANGED q
Try(part) == IF q.fails = part THEN at' = "error" ELSE TRUE
Begin == \/ (q.metaOnly \/ ~q.given) /\ Step("start", "metadata") /\ UNCHANGED done
         \/ (~q.metaOnly /\ q.given) /\ Step("start", "limits") /\ UNCHANGED done
Meta == /\ at = "metadata" /\ done' = Append(done, <<"metadata">>) /\ UNCHANGED q
        /\ at' = IF q.fails = "metadata" THEN "error" ELSE IF q.metaOnly THEN "answer" ELSE "limits"
Lims == Step("limits", IF LimitsBad(q) THEN "error" ELSE "data") /\ UNCHANGED done
Data == /\ at = "data" /\ done' = Append(done, <<"data", Range1(q)[1], Range1(q)[2]>>) /\ UNCHANGED q
        /\ at' = IF q.fails = "data" THEN "error" ELSE IF q.scalings THEN "scale" ELSE "answer"
Scale == /\ at = "scale" /\ done' = Append(done, <<"scale">>) /\ UNCHANGED q
         /\ at' = IF q.fails = "scale" THEN "error" ELSE "answer"
RNext == Begin \/ Meta \/ Lims \/ Data \/ Scale
RSpec == RInit /\ [][RNext]_rvars

Names == [k \in DOMAIN done |-> done[k][1]]
Times(p) == Cardinality({k \in DOMAIN done : done[k][1] = p})
AtEnd == at \in {"answer", "error"}
AsSpecified == AtEnd => done = Parts(q) /\ (at = "answer") = Answered(q)
OnceAtMost == \A p \in {"metadata", "data", "scale"} : Times(p) <= 1
NoDataUnlessAsked == Times("data") = 1 => ~q.metaOnly /\ ~LimitsBad(q)
ScaledOnlyIfAsked == Times("scale") = 1 => q.scalings /\ Times("data") = 1
MetadataNotReadAgain == (q.given /\ ~q.metaOnly) => Times("metadata") = 0
Emit == (Emitting /\ at = "start") => PrintT("@@CASE " \o ToJson(q))
=============================================================================
