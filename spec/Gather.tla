------------------------------- MODULE Gather -------------------------------
(***************************************************************************)
(* Selection of windows across sites (C14) and gathering of their spectra  *)
(* (C15).                                                                  *)
(*                                                                         *)
(* A site is a sequence of measurements in the order they are listed.  A   *)
(* measurement has a sampling frequency, and evaluation data that are      *)
(* readable or not; levels[v] = <<first global window, number of windows>>.*)
(***************************************************************************)
EXTENDS Base

Usable(meas, fs) == meas.fs = fs /\ meas.evals
UsableIn(site, fs) == {m \in DOMAIN site : Usable(site[m], fs)}
Has(meas, v, g) == v <= Len(meas.levels) /\ g >= meas.levels[v][1] /\ g < meas.levels[v][1] + meas.levels[v][2]
LevelsOf(site, fs) == SetMax({Len(site[m].levels) : m \in UsableIn(site, fs)})

WinsOf(meas, v) == IF v > Len(meas.levels) THEN {} ELSE meas.levels[v][1] .. meas.levels[v][1] + meas.levels[v][2] - 1
SiteWins(site, fs, v) == UNION {WinsOf(site[m], v) : m \in UsableIn(site, fs)}
\* the measurement a window of a site is taken from: the first listed that has it
From(site, fs, v, g) == SetMin({m \in UsableIn(site, fs) : Has(site[m], v, g)})

\* sites: a non empty set of sites with data
SelectedLevels(sites, fs) == SetMin({LevelsOf(s, fs) : s \in sites})
Shared(sites, fs, v) ==
    LET s0 == CHOOSE s \in sites : TRUE IN
    {g \in SiteWins(s0, fs, v) : \A s \in sites : g \in SiteWins(s, fs, v)}
Refused(sites, fs) == \E s \in sites : UsableIn(s, fs) = {}

\* defaults of the roles; "-" is not given
InSite(out, in) == IF in = "-" THEN out ELSE in
CrossSite(out, in, cross) == IF cross = "-" THEN InSite(out, in) ELSE cross
=============================================================================
