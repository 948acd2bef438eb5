------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Trace validation.  The harness runs the real code and writes one JSON   *)
(* event per public call:                                                  *)
(*    [ev, id, ok, err, i |-> inputs, o |-> projected observation]         *)
(* A trace module supplies, through its .cfg, the abstract start state     *)
(* InitSt, the transition Apply(tstate, e) and Check(st, e): a record mapping  *)
(* clause names to BOOLEANs, the obligations the specification puts on     *)
(* that event in that state.  Every event is always consumed, so the rest  *)
(* of the trace is judged too; each failing clause is reported by name.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS InitSt, Apply(_, _), Check(_, _)

VARIABLES tline, tstate

Trace == ndJsonDeserialize(IOEnv.RS_TRACE)

\* "crash": the code under test could not even build a valid input of the driver
Failing(e) ==
    IF e.ev = "crash" THEN {"valid_inputs_are_accepted"}
    ELSE LET ck == Check(tstate, e) IN {c \in DOMAIN ck : ~ck[c]}

TraceInit == tline = 1 /\ tstate = InitSt

TraceNext ==
    /\ tline <= Len(Trace)
    /\ LET e == Trace[tline]
           f == Failing(e)
       IN  /\ IF f = {} THEN TRUE
              ELSE PrintT("@@FAIL " \o ToJson([id |-> e.id, ev |-> e.ev, clauses |-> f]))
           /\ tstate' = IF e.ev = "crash" THEN tstate ELSE Apply(tstate, e)
    /\ tline' = tline + 1

TraceSpec == TraceInit /\ [][TraceNext]_<<tline, tstate>>

\* every event was consumed (one state per event plus the initial one)
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
