---------------------------- MODULE T_Calibration ----------------------------
(* Trace validation of sensor calibration (C13) and calibration files (C30). *)
EXTENDS Calibration, TraceKit

XInit == 0
XApply(s, e) == s

CheckCalibrate(e) ==
    LET i == e.i
        used == [c \in DOMAIN i.chans |->
            IF i.chans[c] \in Range(i.select) THEN Chosen(i.readers, i.files, i.sensors[c], i.serials[c]) ELSE 0]
        V == DOMAIN i.levels
    IN  IF ~e.ok THEN [never_aborted |-> FALSE]
        ELSE
        [recording_carried_over |-> e.o.meta = i.meta /\ e.o.levels = i.levels /\ e.o.keys = [v \in V |-> v - 1],
         same_shape |-> e.o.shapes = i.shapes,
         others_unchanged |-> \A c \in DOMAIN i.chans : used[c] = 0 => \A v \in V : e.o.kept[v][c],
         divided_by_the_response |-> e.o.shapes = i.shapes => \A c \in DOMAIN i.chans : used[c] # 0 =>
            \A v \in V : \A w \in DOMAIN i.v[v] : \A k \in DOMAIN i.f[v] :
                DividedBy(e.o.vals[v][w][c][k], i.v[v][w][c][k], i.files[used[c]].cal, i.f[v][k])]

\* one reader, one directory of files: which file is read
CheckLookup(e) ==
    LET i == e.i
        name == FileName(i.reader.parts, i.sensor, i.serial, i.reader.ext)
        S == File(i.files, name)
    IN  IF S = {} THEN [missing_file_is_an_error |-> ~e.ok]
        ELSE IF i.files[CHOOSE k \in S : TRUE].fmt # i.reader.fmt THEN [unreadable_file_is_an_error |-> ~e.ok]
        ELSE [read |-> e.ok, file_of_the_sensor |-> e.ok => e.o.file = name /\ e.o.gain = i.files[CHOOSE k \in S : TRUE].gain]

Stated(i, field, obs) == i[field] = "-" \/ obs = i[field]
\* the curves by name
Items(o) == o.items = <<o.f, o.mag, o.phs>> /\ ~o.other
CheckText(e) ==
    LET i == e.i
        L == ByFreq(Range(i.lines))
    IN  IF ~i.section THEN [no_data_is_an_error |-> ~e.ok]
        ELSE IF ~e.ok THEN [read |-> FALSE]
        ELSE
        [frequencies_increase |-> e.o.f = [k \in DOMAIN L |-> L[k][1]],
         magnitude_of_the_line |-> e.o.mag = [k \in DOMAIN L |-> L[k][2]],
         phase_in_radians |-> Len(e.o.phs) = Len(L) /\ \A k \in DOMAIN L :
            Near(e.o.phs[k], IF i.unit = "degrees" THEN Degrees(L[k][3]) ELSE L[k][3], 2),
         as_many_samples_as_lines |-> e.o.n = Len(i.lines),
         stated_details |-> Stated(i, "sensor", e.o.sensor) /\ Stated(i, "serial", e.o.serial)
            /\ Stated(i, "magunit", e.o.magunit) /\ (i.gain = 0 \/ e.o.gain = i.gain),
         curves_by_name |-> Items(e.o),
         file |-> e.o.file = i.file]

CheckJson(e) ==
    IF ~e.ok THEN [read |-> FALSE]
    ELSE [as_stored |-> e.o.f = e.i.f /\ e.o.mag = e.i.mag /\ e.o.phs = e.i.phs /\ e.o.n = Len(e.i.f),
          stated_details |-> Stated(e.i, "sensor", e.o.sensor) /\ Stated(e.i, "serial", e.o.serial)
            /\ Stated(e.i, "magunit", e.o.magunit) /\ (e.i.gain = 0 \/ e.o.gain = e.i.gain),
          curves_by_name |-> Items(e.o),
          file |-> e.o.file = e.i.file]

XCheck(s, e) ==
    CASE e.ev = "calibrate" -> CheckCalibrate(e)
      [] e.ev = "lookup" -> CheckLookup(e)
      [] e.ev = "text" -> CheckText(e)
      [] e.ev = "json" -> CheckJson(e)
=============================================================================
