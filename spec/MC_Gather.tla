------------------------------ MODULE MC_Gather ------------------------------
(* Measurements are processed one after the other at two sites, in any       *)
(* order; windows are selected and gathered in between.                      *)
EXTENDS Gather, TLC, Json
CONSTANTS MaxOffset, MaxN, MaxMeas
VARIABLES site, shared, from
svars == <<site, shared, from>>
Sites == {1, 2}
Ranges == (0 .. MaxOffset) \X (1 .. MaxN)
SInit == site = [s \in Sites |-> <<>>] /\ shared = {} /\ from = [s \in Sites |-> <<>>]

\* what one more measurement adds to a site's table: windows which no earlier one has
Add(s, r, ok) ==
    /\ Len(site[s]) < MaxMeas
    /\ LET m == [fs |-> 1, evals |-> ok, levels |-> <<r>>]
           new == IF ok THEN WinsOf(m, 1) \ DOMAIN from[s] ELSE {}
           tab == [g \in DOMAIN from[s] \union new |-> IF g \in new THEN Len(site[s]) + 1 ELSE from[s][g]]
       IN  /\ site' = [site EXCEPT ![s] = Append(@, m)]
           /\ from' = [from EXCEPT ![s] = tab]
           /\ shared' = DOMAIN tab \intersect DOMAIN from[3 - s]
SNext == \E s \in Sites, r \in Ranges, ok \in BOOLEAN : Add(s, r, ok)
SSpec == SInit /\ [][SNext]_svars

Both == \A s \in Sites : UsableIn(site[s], 1) # {}
Formula == Both => Shared({site[1], site[2]}, 1, 1) = shared
Attribution == Both => \A s \in Sites : \A g \in shared :
    /\ From(site[s], 1, 1, g) = from[s][g]
    /\ Has(site[s][from[s][g]], 1, g)
NothingMissing == Both => \A g \in 0 .. MaxOffset + MaxN :
    (\A s \in Sites : \E m \in DOMAIN site[s] : site[s][m].evals /\ Has(site[s][m], 1, g)) <=> g \in shared
\* more data never loses a window
Grows == [][shared \subseteq shared']_svars
Emit == (site[1] # <<>> /\ site[2] # <<>>) => PrintT("@@CASE " \o ToJson([site |-> site]))
=============================================================================
