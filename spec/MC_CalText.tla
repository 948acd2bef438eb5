----------------------------- MODULE MC_CalText -----------------------------
(* A text file is read line by line and each line is put in its place.       *)
EXTENDS Calibration, TLC, Json
CONSTANTS MaxLines, Freqs
VARIABLES lines, table
svars == <<lines, table>>
SInit == lines = <<>> /\ table = <<>>
Below(f) == Cardinality({k \in DOMAIN table : table[k][1] < f})
Read == /\ Len(lines) < MaxLines
        /\ \E f \in Freqs : /\ \A k \in DOMAIN lines : lines[k][1] # f
                            /\ LET x == <<f, Len(lines) + 1, 7 - f>> IN
                               /\ lines' = Append(lines, x)
                               /\ table' = SubSeq(table, 1, Below(f)) \o <<x>> \o SubSeq(table, Below(f) + 1, Len(table))
SNext == Read
SSpec == SInit /\ [][SNext]_svars
Increasing == \A k \in DOMAIN table : k > 1 => table[k - 1][1] < table[k][1]
SameLines == Range(table) = Range(lines) /\ Len(table) = Len(lines)
Formula == table = ByFreq(Range(lines))
Emit == lines # <<>> => PrintT("@@CASE " \o ToJson([order |-> [k \in DOMAIN lines |-> lines[k][1]]]))
ASSUME Degrees(180) = 3141593 /\ Degrees(-90) = -1570797 /\ Degrees(0) = 0
=============================================================================
