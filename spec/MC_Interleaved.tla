--------------------------- MODULE MC_Interleaved ---------------------------
EXTENDS Interleaved, TLC, Json
\* Protocol: "tolerant" as it must be; "strict" fails where somebody else made the folder in the
\* meantime; "scratch" writes to a place all steps share and moves it to the address
CONSTANTS Steps, OneFolder, Protocol, Recording
VARIABLES pc, saw, folders, files, scratch, failed, hist
nvars == <<pc, saw, folders, files, scratch, failed, hist>>

Inputs == 0
Step(i) == [out |-> i, ins |-> {Inputs}]
Folder(i) == IF OneFolder THEN 1 ELSE i
ASSUME \A a, b \in Steps : a # b => Independent(Step(a), Step(b))

NInit == /\ pc = [i \in Steps |-> "look"] /\ saw = [i \in Steps |-> FALSE] /\ folders = {}
         /\ files = [i \in Steps |-> [data |-> 0, mark |-> 0]] /\ scratch = 0 /\ failed = {} /\ hist = <<>>
Note(i) == hist' = IF Recording THEN Append(hist, i) ELSE hist

Look(i) == /\ pc[i] = "look" /\ saw' = [saw EXCEPT ![i] = Folder(i) \in folders]
           /\ pc' = [pc EXCEPT ![i] = "make"] /\ UNCHANGED <<folders, files, scratch, failed>>
Make(i) == /\ pc[i] = "make"
           /\ IF ~saw[i] /\ Folder(i) \in folders /\ Protocol = "strict"
              THEN failed' = failed \cup {i} /\ pc' = [pc EXCEPT ![i] = "done"] /\ UNCHANGED folders
              ELSE folders' = folders \cup {Folder(i)} /\ pc' = [pc EXCEPT ![i] = "data"] /\ UNCHANGED failed
           /\ UNCHANGED <<saw, files, scratch>>
Data(i) == /\ pc[i] = "data"
           /\ IF Protocol = "scratch" THEN scratch' = i /\ UNCHANGED files
              ELSE files' = [files EXCEPT ![i].data = i] /\ UNCHANGED scratch
           /\ pc' = [pc EXCEPT ![i] = "mark"] /\ UNCHANGED <<saw, folders, failed>>
Mark(i) == /\ pc[i] = "mark"
           /\ files' = [files EXCEPT ![i] = [data |-> IF Protocol = "scratch" THEN scratch ELSE @.data, mark |-> i]]
           /\ pc' = [pc EXCEPT ![i] = "done"] /\ UNCHANGED <<saw, folders, scratch, failed>>
NNext == \E i \in Steps : (Look(i) \/ Make(i) \/ Data(i) \/ Mark(i)) /\ Note(i)
NSpec == NInit /\ [][NNext]_nvars

NobodyFails == failed = {}
Done == \A i \in Steps : pc[i] = "done"
\* each as if it had been alone
AsAlone == Done => \A i \in Steps : files[i] = [data |-> i, mark |-> i]
\* nobody touches the address of another
OwnOnly == [][\A i \in Steps : files'[i] # files[i] => pc'[i] # pc[i]]_nvars
Emit == (Recording /\ Done) => PrintT("@@CASE " \o ToJson([turns |-> hist, steps |-> Cardinality(Steps)]))
=============================================================================
