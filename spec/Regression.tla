----------------------------- MODULE Regression -----------------------------
(***************************************************************************)
(* The regression system (C16) and its solution (C17).                     *)
(*                                                                         *)
(* Data at one evaluation frequency: a sequence of windows; each has the   *)
(* complex (Gaussian integer) values of the output, input and cross        *)
(* channels, [out, inp, cross].  A transfer function Z gives for every     *)
(* output a sequence with one complex value per input.                     *)
(***************************************************************************)
EXTENDS Base

RECURSIVE CSumTo(_, _)
CSumTo(f, n) == IF n = 0 THEN <<0, 0>> ELSE CAdd(f[n], CSumTo(f, n - 1))

\* the complex relation for window w, cross channel c and output o
Lhs(w, c, o) == CMul(w.out[o], CConj(w.cross[c]))
Rhs(w, c, z) == CSumTo([i \in DOMAIN w.inp |-> CMul(z[i], CMul(w.inp[i], CConj(w.cross[c])))], Len(w.inp))
Holds(w, c, o, z) == Lhs(w, c, o) = Rhs(w, c, z)

\* its two real equations; unknowns Re z1, Im z1, Re z2, Im z2, ...
PredReal(w, c) == [k \in 1 .. 2 * Len(w.inp) |->
    LET a == CMul(w.inp[((k - 1) \div 2) + 1], CConj(w.cross[c])) IN IF k % 2 = 1 THEN a[1] ELSE -a[2]]
PredImag(w, c) == [k \in 1 .. 2 * Len(w.inp) |->
    LET a == CMul(w.inp[((k - 1) \div 2) + 1], CConj(w.cross[c])) IN IF k % 2 = 1 THEN a[2] ELSE a[1]]
\* each row with the observations of all outputs
RowsOf(w, c) == << <<PredReal(w, c), [o \in DOMAIN w.out |-> Lhs(w, c, o)[1]]>>,
                   <<PredImag(w, c), [o \in DOMAIN w.out |-> Lhs(w, c, o)[2]]>> >>
System(wins) == FlattenSeq([k \in DOMAIN wins |-> FlattenSeq([c \in DOMAIN wins[k].cross |-> RowsOf(wins[k], c)])])

Unknowns(z) == [k \in 1 .. 2 * Len(z) |-> z[((k - 1) \div 2) + 1][IF k % 2 = 1 THEN 1 ELSE 2]]
Dot(a, b) == SumSeq([k \in DOMAIN a |-> a[k] * b[k]])
Satisfies(rows, o, z) == \A r \in DOMAIN rows : Dot(rows[r][1], Unknowns(z)) = rows[r][2][o]

\* what a transfer function makes of the inputs
Output(inp, z) == CSumTo([i \in DOMAIN inp |-> CMul(z[i], inp[i])], Len(inp))
Generated(wins, Z) == \A k \in DOMAIN wins : \A o \in DOMAIN wins[k].out : wins[k].out[o] = Output(wins[k].inp, Z[o])

\* bags as sequences in any order
Times(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Range(s) : Times(s, x) = Times(t, x)
=============================================================================
