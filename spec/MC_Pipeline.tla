----------------------------- MODULE MC_Pipeline -----------------------------
(* The design: the steps are run one after the other, each on what the one   *)
(* before gave; a product is the list of what was applied to the recording.  *)
EXTENDS Pipeline, TLC, Json
CONSTANTS MaxT, MaxS, MaxReaders, Recording
VARIABLES entry, readers, nt, ns, fault, pc, log, prod, stored, phase
pvars == <<entry, readers, nt, ns, fault, pc, log, prod, stored, phase>>
const == <<entry, readers, nt, ns, fault>>

PInit ==
    /\ entry \in Entries /\ nt \in 0 .. MaxT /\ ns \in 0 .. MaxS
    /\ readers \in UNION {[1 .. k -> ReaderKinds] : k \in 0 .. MaxReaders}
    /\ fault \in 0 .. Len(Steps(entry, nt, ns))
    \* one thing at a time
    /\ (fault # 0 \/ entry = "process_evals_to_tf") => readers = <<"reads">>
    /\ pc = 0 /\ log = <<>> /\ prod = <<>> /\ stored = <<>> /\ phase = "read"

\* readers are tried in turn
Read ==
    /\ phase = "read" /\ entry # "process_evals_to_tf"
    /\ pc < Len(readers)
    /\ pc' = pc + 1
    /\ LET k == readers[pc + 1] IN
       IF k = "reads" THEN prod' = <<<<"read", pc + 1>>>> /\ phase' = "run"
       ELSE IF InProject(entry) /\ k \in {"nodata", "metaonly"} THEN phase' = "failed" /\ UNCHANGED prod
       ELSE UNCHANGED <<prod, phase>>
    /\ UNCHANGED <<const, log, stored>>
NoReader == phase = "read" /\ pc = Len(readers) /\ entry # "process_evals_to_tf" /\ phase' = "failed" /\ UNCHANGED <<const, pc, log, prod, stored>>
FromEvals == phase = "read" /\ entry = "process_evals_to_tf" /\ phase' = "run" /\ prod' = <<<<"evals", 0>>>> /\ UNCHANGED <<const, pc, log, stored>>
Step ==
    LET S == Steps(entry, nt, ns)  n == Len(log) + 1 IN
    /\ phase = "run" /\ n <= Len(S)
    /\ log' = Append(log, S[n])
    /\ IF n = fault THEN phase' = "failed" /\ UNCHANGED prod ELSE prod' = Append(prod, S[n]) /\ UNCHANGED phase
    /\ UNCHANGED <<const, pc, stored>>
Finish ==
    /\ phase = "run" /\ Len(log) = Len(Steps(entry, nt, ns))
    /\ phase' = "done" /\ stored' = IF Stores(entry) THEN prod ELSE <<>>
    /\ UNCHANGED <<const, pc, log, prod>>
PNext == Read \/ NoReader \/ FromEvals \/ Step \/ Finish
PSpec == PInit /\ [][PNext]_pvars /\ WF_pvars(PNext)

IsPrefix(a, b) == Len(a) <= Len(b) /\ \A k \in DOMAIN a : a[k] = b[k]
InOrder == IsPrefix(log, Steps(entry, nt, ns))
OnceEach == IsInjective(log)
Whole == phase = "done" => Tail(prod) = Steps(entry, nt, ns)
StoredOnlyWhole == stored # <<>> => phase = "done" /\ stored = prod
NothingAfterFault == Len(log) <= (IF fault = 0 THEN Len(Steps(entry, nt, ns)) ELSE fault)
\* the reader that was used is the one the rules above name
RightReader == (prod # <<>> /\ prod[1][1] = "read") =>
    prod[1][2] = IF InProject(entry) THEN ProjectReader(readers) ELSE QuickReader(readers)
FailsOnlyWhen == phase = "failed" =>
    \/ fault # 0
    \/ ~InProject(entry) /\ QuickReader(readers) = 0
    \/ InProject(entry) /\ (ProjectReader(readers) = 0 \/ readers[ProjectReader(readers)] # "reads")
Ends == <>(phase \in {"done", "failed"})
Emit == (Recording /\ phase = "read" /\ pc = 0) =>
    PrintT("@@CASE " \o ToJson([entry |-> entry, readers |-> readers, nt |-> nt, ns |-> ns, fault |-> fault]))
=============================================================================
