------------------------------ MODULE T_Windows ------------------------------
(* Trace validation of windowing against Windows (C08, C09, C10).            *)
EXTENDS Windows, TraceKit

XInit == 0
XApply(s, e) == s

Target(i) == i.form = "target"
Size(i, v) == IF Target(i) THEN TargetSize(i.n[v], i.prop, i.target, i.min_size) ELSE i.sizes[v]
Olap(i, v) == IF Target(i) THEN TargetOverlap(Size(i, v), i.prop) ELSE i.olaps[v]
Inc(i, v) == Size(i, v) - Olap(i, v)
\* level v has K ticks to a sample; its first sample is at r
Count(i, v) == NWins(i.r, i.n[v], Size(i, v), Inc(i, v), i.K[v])
First(i, v) == FirstWin(i.r, Inc(i, v), i.K[v])
Kept(i) == WindowedLevels([v \in DOMAIN i.n |-> Count(i, v)], i.least)
Starts(i, v) == [w \in 1 .. Count(i, v) |-> WinStart(First(i, v) + w - 1, Inc(i, v), i.K[v])]
Froms(i, v) == [w \in 1 .. Count(i, v) |-> FromNo(First(i, v) + w - 1, i.r, Inc(i, v), i.K[v])]

\* observed times are <<tick, millionths of a sample off>>
Ticks(ts) == [k \in DOMAIN ts |-> ts[k].t]
OnTime(ts, slack) == \A k \in DOMAIN ts : ts[k].dev <= slack

CheckWindows(e) ==
    LET i == e.i
        k == Kept(i)
    IN
    IF k = 0 THEN [no_level_has_enough_windows |-> ~e.ok \/ e.o.levels = <<>>]
    ELSE IF ~e.ok THEN [windowed |-> FALSE]
    ELSE LET L == e.o.levels
             both == 1 .. Min2(Len(L), k)
         IN
        [levels_end_at_too_few_windows |-> Len(L) = k /\ e.o.n_levels = k /\ e.o.keys = [v \in 1 .. k |-> v - 1],
         none_missing_none_extra |-> \A v \in both : L[v].n = Count(i, v) /\ L[v].n_data = Count(i, v),
         numbered_from_reference |-> \A v \in both : L[v].offset = First(i, v),
         contents_exact |-> \A v \in both : L[v].from = Froms(i, v) /\ L[v].consecutive,
         channels_in_place |-> e.o.chans = i.chans /\ \A v \in both : L[v].chans = [c \in DOMAIN i.chans |-> c],
         sizes_as_set_up |-> \A v \in both :
            L[v].size = Size(i, v) /\ L[v].olap = Olap(i, v) /\ L[v].n_samples = Size(i, v),
         sampling_frequencies |-> \A v \in both : L[v].ratio = i.K[v] /\ L[v].listed_ratio = i.K[v],
         reference_time |-> e.o.ref.t = 0 /\ e.o.ref.dev = 0,
         recording_times_kept |-> e.o.first.t = i.r /\ e.o.first.dev = 0 /\ e.o.last_same]

CheckTable(e) ==
    LET i == e.i
        c == Count(i, 1)
    IN  [answered |-> e.ok,
         none_missing_none_extra |-> e.ok => Len(e.o.global) = c,
         numbered_from_reference |-> e.ok =>
            /\ e.o.global = [w \in 1 .. c |-> First(i, 1) + w - 1]
            /\ e.o.local = [w \in 1 .. c |-> w - 1],
         covered_samples |-> e.ok =>
            /\ e.o.from = Froms(i, 1)
            /\ e.o.to = [w \in 1 .. c |-> Froms(i, 1)[w] + Size(i, 1) - 1],
         window_times |-> (e.ok /\ i.timed) =>
            /\ Ticks(e.o.starts) = Starts(i, 1) /\ OnTime(e.o.starts, i.slack)
            /\ Ticks(e.o.ends) = [w \in 1 .. c |-> Starts(i, 1)[w] + (Size(i, 1) - 1) * i.K[1]]
            /\ OnTime(e.o.ends, i.slack)]

\* a window fetched by position or by global number
CheckFetch(e) ==
    LET i == e.i
        v == i.level + 1
        w == IF i.by = "local" THEN i.number ELSE i.number - First(i, v)
    IN  IF w \notin 0 .. (Count(i, v) - 1) THEN [number_outside_refused |-> ~e.ok]
        ELSE [answered |-> e.ok,
              fetched_window |-> e.ok => e.o.from = Froms(i, v)[w + 1] /\ e.o.consecutive /\ e.o.c = [x \in DOMAIN i.chans |-> x]]

\* two recordings: shared[v] are the rows <<global number, start in 1, start in 2>> of level v
CheckPair(e) ==
    LET A == e.i.a
        B == e.i.b
        k == Min2(Kept(A), Kept(B))
        Shared(v) == {g \in First(A, v) .. First(A, v) + Count(A, v) - 1 :
                        g \in First(B, v) .. First(B, v) + Count(B, v) - 1}
        aligned(v) == (A.r - B.r) % A.K[v] = 0
    IN  IF k = 0 THEN [not_windowed |-> TRUE]
        ELSE IF ~e.ok THEN [windowed |-> FALSE]
        ELSE
        [levels |-> Len(e.o.levels) = k,
         shared_numbers |-> \A v \in 1 .. Min2(k, Len(e.o.levels)) :
            {e.o.levels[v][x].g : x \in DOMAIN e.o.levels[v]} = Shared(v),
         equal_numbers_equal_times |-> \A v \in 1 .. Min2(k, Len(e.o.levels)) : \A x \in DOMAIN e.o.levels[v] :
            LET w == e.o.levels[v][x] IN
            \A t \in {w.ta, w.tb, w.sa, w.sb, w.exact} :
                t.t = WinStart(w.g, Inc(A, v), A.K[v]) /\ t.dev <= e.i.slack,
         equal_numbers_equal_ends |-> \A v \in 1 .. Min2(k, Len(e.o.levels)) : \A x \in DOMAIN e.o.levels[v] :
            LET w == e.o.levels[v][x] IN
            \A t \in {w.ea, w.eb} :
                t.t = WinEnd(w.g, Size(A, v), Inc(A, v), A.K[v]) /\ t.dev <= e.i.slack,
         equal_numbers_equal_values |-> \A v \in 1 .. Min2(k, Len(e.o.levels)) : aligned(v) =>
            \A x \in DOMAIN e.o.levels[v] : e.o.levels[v][x].same /\ e.o.levels[v][x].spec_same]

CheckSetup(e) ==
    LET i == e.i
        few(given, list) == given /\ Len(list) < i.levels
        sizes == IF i.has_sizes THEN SubSeq(i.sizes, 1, i.levels)
                 ELSE [v \in 1 .. i.levels |-> WinSize(i.fs[v], i.factor, i.min_size)]
    IN  IF few(i.has_sizes, i.sizes) \/ few(i.has_olaps, i.olaps) THEN [too_few_entries_refused |-> ~e.ok]
        ELSE [answered |-> e.ok,
              window_sizes |-> e.ok => e.o.sizes = sizes,
              overlaps |-> e.ok => e.o.olaps = IF i.has_olaps THEN SubSeq(i.olaps, 1, i.levels)
                    ELSE [v \in 1 .. i.levels |-> Overlap(sizes[v], i.prop, i.min_olap)],
              levels_and_minimum |-> e.ok => e.o.levels = i.levels /\ e.o.least = i.least,
              by_level |-> e.ok => e.o.by_level = [v \in 1 .. i.levels |-> <<e.o.sizes[v], e.o.olaps[v]>>]]

CheckLevel(e) == [level_outside_refused |-> (e.i.level \in 0 .. (e.i.levels - 1)) = e.ok]

XCheck(s, e) ==
    CASE e.ev = "windows" -> CheckWindows(e)
      [] e.ev = "table" -> CheckTable(e)
      [] e.ev = "fetch" -> CheckFetch(e)
      [] e.ev = "pair" -> CheckPair(e)
      [] e.ev = "setup" -> CheckSetup(e)
      [] e.ev = "level" -> CheckLevel(e)
=============================================================================
