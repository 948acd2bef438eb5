------------------------------ MODULE Queries -------------------------------
(***************************************************************************)
(* What can be asked of a loaded project (C20).  A project is a set of     *)
(* site names and a set of measurements                                    *)
(*     [site, meas, fs, first, last]                                       *)
(* fs is the place of the sampling frequency in an increasing list, first  *)
(* and last are ticks.  (site, meas) is unique.                            *)
(***************************************************************************)
EXTENDS Base

OfSite(ms, s) == {m \in ms : m.site = s}
Populated(ms) == {m.site : m \in ms}
FsOf(ms) == {m.fs : m \in ms}
FsList(ms) == SortedSeq(FsOf(ms))
WithFs(ms, f) == {m \in ms : m.fs = f}
SitesWithFs(ms, f) == {s \in Populated(ms) : f \in FsOf(OfSite(ms, s))}

First(ms) == SetMin({m.first : m \in ms})
Last(ms) == SetMax({m.last : m \in ms})
SiteRange(ms, s) == <<First(OfSite(ms, s)), Last(OfSite(ms, s))>>
\* some instant lies in both ranges
Share(r, q) == \E t \in {r[1], r[2], q[1], q[2]} : r[1] <= t /\ t <= r[2] /\ q[1] <= t /\ t <= q[2]
Concurrent(ms, s) == {o \in Populated(ms) \ {s} : Share(SiteRange(ms, o), SiteRange(ms, s))}
=============================================================================
