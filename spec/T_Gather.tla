------------------------------ MODULE T_Gather ------------------------------
(* Trace validation of selection (C14) and gathering (C15) against Gather.   *)
EXTENDS Gather, TraceKit

XInit == 0
XApply(s, e) == s

Site(i, name) == i.sites[CHOOSE k \in DOMAIN i.sites : i.sites[k].name = name].meas
Known(i, name) == \E k \in DOMAIN i.sites : i.sites[k].name = name
Requested(i) == Range(i.request)
Values(i) == {Site(i, n) : n \in Requested(i)}
Invalid(i) == (\E n \in Requested(i) : ~Known(i, n)) \/ Refused(Values(i), i.fs)
NameOf(i, n, v, g) == Site(i, n)[From(Site(i, n), i.fs, v, g)].name

CheckSelect(e) ==
    LET i == e.i IN
    IF Invalid(i) THEN [site_without_data_refused |-> ~e.ok]
    ELSE IF ~e.ok THEN [selected |-> FALSE]
    ELSE LET n == SelectedLevels(Values(i), i.fs)
             L == e.o.levels
             wins(v) == SortedSeq(Shared(Values(i), i.fs, v))
             V == 1 .. Min2(n, Len(L))
         IN
        [levels_present_everywhere |-> Len(L) = n /\ e.o.n_levels = n,
         windows_at_every_site |-> \A v \in V : L[v].wins = wins(v),
         each_evaluation_frequency |-> \A v \in V : \A k \in DOMAIN L[v].n_wins : L[v].n_wins[k] = Len(wins(v)),
         sites |-> Range(e.o.sites) = Requested(i) /\ Len(e.o.sites) = Cardinality(Requested(i)),
         attributed_to_first_that_has_it |-> \A v \in V : L[v].wins = wins(v) =>
            \A s \in DOMAIN e.o.sites : e.o.sites[s] \in Requested(i) =>
                \A w \in DOMAIN wins(v) : L[v].from[w][s] = NameOf(i, e.o.sites[s], v, wins(v)[w]),
         measurements_listed |-> \A s \in DOMAIN e.o.sites : e.o.sites[s] \in Requested(i) =>
            Range(e.o.meas[s]) = UNION {{NameOf(i, e.o.sites[s], v, g) : g \in Range(wins(v))} : v \in 1 .. n},
         evaluation_frequencies |-> e.o.freqs = SubSeq(i.freqs, 1, n * i.per) /\ e.o.n_evals = n * i.per]

\* values tell where they come from
Value(i, m, v, c, k, g) == << m * 100000 + v * 10000 + c * 100 + k, g >>
IdOf(i, n, v, g) == Site(i, n)[From(Site(i, n), i.fs, v, g)].id
ChanNo(i, c) == CHOOSE k \in DOMAIN i.names : i.names[k] = c

CheckPart(i, p, name, chans, n, wins) ==
    /\ p.site = name /\ p.chans = chans
    /\ p.freqs = SubSeq(i.freqs, 1, n * i.per) /\ p.n_evals = n * i.per
    /\ p.keys = [x \in 1 .. n * i.per |-> x - 1]
RowsOf(i, name, chans, n, wins) ==
    LET ids == [v \in 1 .. n |-> [w \in DOMAIN wins[v] |-> IdOf(i, name, v, wins[v][w])]]
        nos == [c \in DOMAIN chans |-> ChanNo(i, chans[c])]
    IN  [x \in 1 .. n * i.per |->
        LET v == ((x - 1) \div i.per) + 1
            k == ((x - 1) % i.per) + 1
        IN  [w \in DOMAIN wins[v] |-> [c \in DOMAIN chans |-> Value(i, ids[v][w], v, nos[c], k, wins[v][w])]]]
Contributing(i, name, n, wins) == UNION {{NameOf(i, name, v, wins[v][w]) : w \in DOMAIN wins[v]} : v \in 1 .. n}
HistoryOf(i, name, m) == LET S == Site(i, name) IN S[CHOOSE k \in DOMAIN S : S[k].name = m].made

CheckGather(e) ==
    LET i == e.i
        n == SelectedLevels(Values(i), i.fs)
        wins == [v \in 1 .. n |-> SortedSeq(Shared(Values(i), i.fs, v))]
        names == <<i.out, InSite(i.out, i.in), CrossSite(i.out, i.in, i.cross)>>
        chans == <<i.out_chans, i.in_chans, i.cross_chans>>
    IN  IF \A v \in 1 .. n : wins[v] = <<>> THEN [nothing_to_gather |-> TRUE]
        ELSE IF ~e.ok THEN [gathered |-> FALSE]
        ELSE
        [sites_channels_and_frequencies |-> \A p \in 1 .. 3 : CheckPart(i, e.o.parts[p], names[p], chans[p], n, wins),
         right_values_in_simultaneous_rows |-> \A p \in 1 .. 3 : e.o.parts[p].rows = RowsOf(i, names[p], chans[p], n, wins),
         contributing_measurements |-> \A p \in 1 .. 3 :
            /\ Range(e.o.parts[p].meas) = Contributing(i, names[p], n, wins)
            /\ Len(e.o.parts[p].meas) = Cardinality(Contributing(i, names[p], n, wins))
            /\ {e.o.parts[p].histories[h].meas : h \in DOMAIN e.o.parts[p].histories} = Contributing(i, names[p], n, wins)
            /\ \A h \in DOMAIN e.o.parts[p].histories : LET x == e.o.parts[p].histories[h] IN
                x.meas \in Contributing(i, names[p], n, wins) => x.made = HistoryOf(i, names[p], x.meas)]

\* one recording on its own: all its windows
CheckQuick(e) ==
    IF ~e.ok THEN [gathered |-> FALSE]
    ELSE LET i == e.i
             n == Len(i.levels)
             chans == <<i.out_chans, i.in_chans, i.cross_chans>>
             rows(p) == [x \in 1 .. n * i.per |->
                LET v == (x - 1) \div i.per + 1
                    k == ((x - 1) % i.per) + 1 IN
                [w \in 1 .. i.levels[v][2] |-> [c \in DOMAIN chans[p] |-> Value(i, i.id, v, ChanNo(i, chans[p][c]), k, i.levels[v][1] + w - 1)]]]
         IN
        [sites_channels_and_frequencies |-> \A p \in 1 .. 3 : CheckPart(i, e.o.parts[p], i.name, chans[p], n, <<>>),
         right_values_in_simultaneous_rows |-> \A p \in 1 .. 3 : e.o.parts[p].rows = rows(p),
         contributing_measurements |-> \A p \in 1 .. 3 : e.o.parts[p].meas = <<i.name>> /\ e.o.parts[p].histories = <<[meas |-> i.name, made |-> i.made]>>]

XCheck(s, e) ==
    CASE e.ev = "select" -> CheckSelect(e)
      [] e.ev = "gather" -> CheckGather(e)
      [] e.ev = "quick" -> CheckQuick(e)
=============================================================================
