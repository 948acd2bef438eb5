------------------------------ MODULE MC_Views ------------------------------
(* The design: read from a store, take subsections, write the result back.  *)
EXTENDS Views, TLC, Json
CONSTANTS N, Ks, Depth, Recording
VARIABLES K, store, mem, refused, hist
vvars == <<K, store, mem, refused, hist>>

TLimits == {TimeLimit(q) : q \in -1 .. N * K}
SLimits == {SampleLimit(s) : s \in -1 .. N}
Both == {[hast |-> TRUE, q |-> K + 1, hass |-> TRUE, s |-> s] : s \in 0 .. 1}
RLimits == {NoLimit} \cup TLimits \cup SLimits \cup Both

Note(h) == IF Recording THEN Append(hist, h) ELSE hist

VInit == /\ K \in Ks /\ store = <<0, N - 1>> /\ mem = <<0, N - 1>>
         /\ refused = FALSE /\ hist = <<>>

Take(v, f, t) ==
    IF Refused(v, K, f, t)
    THEN refused' = TRUE /\ mem' = mem
    ELSE refused' = FALSE /\ mem' = Part(v, K, f, t)

Read == \E f, t \in RLimits :
    Take(store, f, t) /\ hist' = Note([op |-> "read", from |-> f, to |-> t])
        /\ UNCHANGED <<K, store>>
Sub == \E f, t \in TLimits :
    Take(mem, f, t) /\ hist' = Note([op |-> "sub", from |-> f, to |-> t])
        /\ UNCHANGED <<K, store>>
Write == store' = mem /\ refused' = FALSE
    /\ hist' = Note([op |-> "write", from |-> NoLimit, to |-> NoLimit]) /\ UNCHANGED <<K, mem>>

VNext == Read \/ Sub \/ Write
VSpec == VInit /\ [][VNext]_vvars

Valid(v) == 0 <= v[1] /\ v[1] < v[2] /\ v[2] < N
TypeOK == Valid(store) /\ Valid(mem)

Samples(v) == v[1] .. v[2]
Closed(qa, qb) == {i \in 0 .. N - 1 : qa <= i * K /\ i * K <= qb}

\* what two time limits leave is the samples inside the closed interval,
\* whatever was read before: composing is intersecting
Composition ==
    \A f, t \in TLimits :
        LET left == Samples(mem) \cap Closed(f.q, t.q)
        IN  IF Refused(mem, K, f, t) THEN Cardinality(left) <= 1
            ELSE Samples(Part(mem, K, f, t)) = left
Whole == ~Refused(mem, K, NoLimit, NoLimit) /\ Part(mem, K, NoLimit, NoLimit) = mem
\* views only ever shrink within what was stored
Shrinks == [][Samples(store') \subseteq Samples(store)]_vvars

Emit == (Recording /\ Len(hist) = Depth) =>
            PrintT("@@CASE " \o ToJson([n |-> N, K |-> K, ops |-> hist]))
Bound == Len(hist) <= Depth
=============================================================================
