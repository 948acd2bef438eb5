---------------------------- MODULE MC_Regression ----------------------------
(* Windows are added one by one to the system of an evaluation frequency.    *)
(* At every step the real equations say exactly what the complex relation    *)
(* says; a transfer function that generated the data always satisfies them,  *)
(* and once the inputs are independent nothing else does.                    *)
EXTENDS Regression, TLC, Json
CONSTANTS Values, ZValues, MaxWins, Shapes
VARIABLES wins, rows, shape, truth
svars == <<wins, rows, shape, truth>>

SmallValues == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, -1>>}
SmallZ == {<<0, 0>>, <<1, 0>>, <<-1, 2>>}
AllShapes == {<<1, 1>>, <<1, 2>>, <<2, 1>>}
MoreValues == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, -1>>, <<-1, -3>>}
MoreShapes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}
SInit ==
    /\ shape \in Shapes                          \* <<n_in, n_cross>>, one output
    /\ truth \in [1 .. shape[1] -> ZValues]
    /\ wins = <<>> /\ rows = <<>>
SNext ==
    /\ Len(wins) < MaxWins
    /\ \E inp \in [1 .. shape[1] -> Values], cross \in [1 .. shape[2] -> Values] :
        LET w == [out |-> <<Output(inp, truth)>>, inp |-> inp, cross |-> cross] IN
        /\ wins' = Append(wins, w)
        /\ rows' = rows \o FlattenSeq([c \in DOMAIN cross |-> RowsOf(w, c)])
    /\ UNCHANGED <<shape, truth>>
SSpec == SInit /\ [][SNext]_svars

Zs == [1 .. shape[1] -> ZValues]
Formula == rows = System(wins)
RealIsComplex == \A z \in Zs : Satisfies(rows, 1, z) <=> \A k \in DOMAIN wins : \A c \in DOMAIN wins[k].cross : Holds(wins[k], c, 1, z)
TruthSolves == Satisfies(rows, 1, truth)
Det2(a, b) == CSub(CMul(a[1], b[2]), CMul(a[2], b[1]))
Independent ==
    IF shape[1] = 1 THEN \E k \in DOMAIN wins : wins[k].inp[1] # <<0, 0>> /\ \E c \in DOMAIN wins[k].cross : wins[k].cross[c] # <<0, 0>>
    ELSE \E k, l \in DOMAIN wins : Det2(wins[k].inp, wins[l].inp) # <<0, 0>>
            /\ (\E c \in DOMAIN wins[k].cross : wins[k].cross[c] # <<0, 0>>)
            /\ (\E c \in DOMAIN wins[l].cross : wins[l].cross[c] # <<0, 0>>)
OnlyTruth == Independent => \A z \in Zs : Satisfies(rows, 1, z) => z = truth
\* solutions are never gained by adding windows
Narrows == [][\A z \in Zs : Satisfies(rows', 1, z) => Satisfies(rows, 1, z)]_svars
Emit == Len(wins) = MaxWins => PrintT("@@CASE " \o ToJson([wins |-> wins, z |-> truth]))
=============================================================================
