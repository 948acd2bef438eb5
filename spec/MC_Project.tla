----------------------------- MODULE MC_Project ------------------------------
(* The design: create, change from outside, load, reload and process.        *)
EXTENDS Project, Json
CONSTANTS Sites, Meas, Cfgs, KindsUsed, ReaderLists, MaxWhat, Depth, Recording, Rich
RL == {<<"numpy", "user">>, <<"user", "ascii", "numpy">>, <<"ascii">>}
VARIABLES disk, env, fresh, hist
pvars == <<disk, env, fresh, hist>>
\* env: [loaded, readers, found] ; fresh: next unused content number
Note(h) == IF Recording THEN Append(hist, h) ELSE hist
Empty == [x \in {} |-> 0]

PInit == /\ disk = [file |-> FALSE, whole |-> FALSE, dirs |-> {}, meas |-> Empty, evals |-> Empty, results |-> Empty, sites |-> {}]
         /\ env = [loaded |-> FALSE, readers |-> <<>>, found |-> {}] /\ fresh = 1 /\ hist = <<>>

Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

Create ==
    /\ disk' = IF CreateRefused(disk) THEN disk ELSE Created(disk)
    /\ hist' = Note([op |-> "create"]) /\ UNCHANGED <<env, fresh>>
RmFile == /\ disk.file /\ disk' = [disk EXCEPT !.file = FALSE, !.whole = FALSE]
          /\ hist' = Note([op |-> "rmfile"]) /\ UNCHANGED <<env, fresh>>
\* a data folder and everything in it is lost; only folders without data in Rich runs, so that runs stay interesting
RmDir == \E d \in Folders :
    /\ d \in disk.dirs /\ (Rich => d \notin {"time"})
    /\ disk' = [disk EXCEPT !.dirs = @ \ {d}, !.meas = IF d = "time" THEN Empty ELSE @, !.sites = IF d = "time" THEN {} ELSE @,
                            !.evals = IF d = "evals" THEN Empty ELSE @, !.results = IF d = "results" THEN Empty ELSE @]
    /\ hist' = Note([op |-> "rmdir", d |-> d]) /\ UNCHANGED <<env, fresh>>
\* the project file stays, everything else is lost
Lose == /\ disk.file /\ disk.dirs # {}
        /\ disk' = [disk EXCEPT !.dirs = {}, !.meas = Empty, !.sites = {}, !.evals = Empty, !.results = Empty]
        /\ hist' = Note([op |-> "lose"]) /\ UNCHANGED <<env, fresh>>
\* the project file is cut short
Cut == /\ disk.file /\ disk' = [disk EXCEPT !.whole = FALSE]
       /\ hist' = Note([op |-> "cut"]) /\ UNCHANGED <<env, fresh>>
MkDir == \E d \in Folders \ disk.dirs : disk' = [disk EXCEPT !.dirs = @ \cup {d}]
    /\ hist' = Note([op |-> "mkdir", d |-> d]) /\ UNCHANGED <<env, fresh>>
AddSite == \E s \in Sites \ disk.sites : "time" \in disk.dirs
    /\ disk' = [disk EXCEPT !.sites = @ \cup {s}]
    /\ hist' = Note([op |-> "addsite", site |-> s]) /\ UNCHANGED <<env, fresh>>
\* a measurement folder is made, or what is in it is replaced
Put == \E s \in Sites, m \in Meas, k \in KindsUsed :
    /\ "time" \in disk.dirs /\ fresh <= MaxWhat
    /\ disk' = [disk EXCEPT !.meas = (<<s, m>> :> [kind |-> k, what |-> fresh]) @@ @, !.sites = @ \cup {s}]
    /\ fresh' = fresh + 1
    /\ hist' = Note([op |-> "put", site |-> s, meas |-> m, kind |-> k]) /\ UNCHANGED env
Remove == \E a \in DOMAIN disk.meas :
    /\ disk' = [disk EXCEPT !.meas = Without(@, {a})]
    /\ hist' = Note([op |-> "remove", site |-> a[1], meas |-> a[2]]) /\ UNCHANGED <<env, fresh>>
\* with one list of readers it is a reload
Load == \E r \in ReaderLists :
    /\ env' = IF LoadRefused(disk) THEN env ELSE [loaded |-> TRUE, readers |-> r, found |-> Found(disk, r)]
    /\ hist' = Note([op |-> "load", readers |-> r]) /\ UNCHANGED <<disk, fresh>>
Reload ==
    /\ env.loaded
    /\ env' = IF LoadRefused(disk) THEN env ELSE [env EXCEPT !.found = Found(disk, env.readers)]
    /\ hist' = Note([op |-> "reload"]) /\ UNCHANGED <<disk, fresh>>

\* measurements that were loaded and are on disk as they were loaded
Usable == IF ~env.loaded \/ disk.dirs # Folders THEN {}
          ELSE {x \in env.found : x.at \in DOMAIN disk.meas /\ disk.meas[x.at].what = x.what}
ProcessTime == \E x \in Usable, s \in Sites, m \in Meas :
    /\ fresh <= MaxWhat /\ x.at # <<s, m>>
    /\ (Rich => <<s, m>> \notin {y.at : y \in Usable})
    /\ disk' = [disk EXCEPT !.meas = (<<s, m>> :> [kind |-> IF <<s, m>> \in DOMAIN disk.meas THEN AfterTimeWrite(disk.meas[<<s, m>>].kind) ELSE "numpy", what |-> fresh]) @@ @, !.sites = @ \cup {s}]
    /\ fresh' = fresh + 1
    /\ hist' = Note([op |-> "process_time", site |-> x.at[1], meas |-> x.at[2], osite |-> s, omeas |-> m]) /\ UNCHANGED env
Evals == \E x \in Usable, c \in Cfgs :
    /\ disk' = [disk EXCEPT !.evals = (EvalsAddress(x.at[1], c, x.at[2]) :> <<c, x.what>>) @@ @]
    /\ hist' = Note([op |-> "evals", site |-> x.at[1], meas |-> x.at[2], cfg |-> c]) /\ UNCHANGED <<env, fresh>>
\* a transfer function needs the evaluation frequency data of all measurements of its sites
EvalsAt(s, c) == {disk.evals[EvalsAddress(s, c, x.at[2])] : x \in {y \in env.found : y.at[1] = s}}
Ready(s, c) == /\ \E x \in env.found : x.at[1] = s
               /\ \A x \in env.found : x.at[1] = s => EvalsAddress(s, c, x.at[2]) \in DOMAIN disk.evals
Tf == \E o, i \in Sites, c \in Cfgs :
    /\ env.loaded /\ disk.dirs = Folders /\ Ready(o, c) /\ Ready(i, c)
    /\ disk' = [disk EXCEPT !.results = (ResultsAddress(o, c) :> <<EvalsAt(o, c), EvalsAt(i, c)>>) @@ @]
    /\ hist' = Note([op |-> "tf", osite |-> o, isite |-> i, cfg |-> c]) /\ UNCHANGED <<env, fresh>>

PNext == Create \/ Lose \/ Cut \/ RmFile \/ RmDir \/ MkDir \/ AddSite \/ Put \/ Remove \/ Load \/ Reload \/ ProcessTime \/ Evals \/ Tf
PSpec == PInit /\ [][PNext]_pvars
\* processing weighs more in the runs that are replayed
Work == Evals \/ Tf \/ ProcessTime
RichNext == (Create /\ ~disk.file) \/ (~Recording /\ Create) \/ (Put /\ fresh < 5) \/ (Load /\ disk.file /\ disk.dirs = Folders /\ DOMAIN disk.meas # {} /\ (~env.loaded \/ Len(hist) % 6 = 0))
            \/ (Reload /\ env.found # Found(disk, env.readers)) \/ Work \/ (Remove /\ Len(hist) > 7) \/ (Len(hist) > 10 /\ (RmDir \/ MkDir \/ RmFile \/ Cut \/ Create \/ AddSite))
RichSpec == PInit /\ [][RichNext]_pvars

TypeOK == /\ disk.dirs \subseteq Folders
          /\ {a[1] : a \in DOMAIN disk.meas} \subseteq disk.sites
          /\ ("time" \notin disk.dirs => disk.meas = Empty)
\* a load finds each measurement at most once, and the reader that is named can read it
LoadExact == \A r \in ReaderLists : LET F == Found(disk, r) IN
    /\ Cardinality(F) = Cardinality({x.at : x \in F})
    /\ \A x \in F : r[x.reader] \in CanRead(disk.meas[x.at].kind) /\ \A k \in 1 .. x.reader - 1 : r[k] \notin CanRead(disk.meas[x.at].kind)
    /\ \A a \in DOMAIN disk.meas \ {x.at : x \in F} : \A k \in DOMAIN r : r[k] \notin CanRead(disk.meas[a].kind)
\* after a successful load memory is what is on disk, and it stays what it was loaded as
LoadedFresh == [][(env' # env) => env'.found = Found(disk', env'.readers)]_pvars
\* computed data only ever changes at one address a step, or when its folder is lost
Differ(f, g) == {a \in DOMAIN f \cup DOMAIN g : a \notin DOMAIN f \/ a \notin DOMAIN g \/ f[a] # g[a]}
OwnAddressOnly == [][Cardinality(Differ(disk.meas, disk'.meas)) + Cardinality(Differ(disk.evals, disk'.evals))
                     + Cardinality(Differ(disk.results, disk'.results)) <= 1 \/ disk'.dirs # disk.dirs]_pvars
\* creating destroys nothing
CreateKeeps == [][(disk'.file /\ ~disk.file) => disk'.meas = disk.meas /\ disk'.evals = disk.evals /\ disk'.results = disk.results /\ disk.dirs \subseteq disk'.dirs]_pvars
Emit == (Recording /\ Len(hist) = Depth) => PrintT("@@CASE " \o ToJson([ops |-> hist]))
\* all folders, or all but one or two, or none: enough to see every way to load
FewFolders == Cardinality(disk.dirs) \in {0, 1, 7, 8}
Bound == Len(hist) <= Depth
=============================================================================
