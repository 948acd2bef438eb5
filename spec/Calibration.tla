----------------------------- MODULE Calibration -----------------------------
(***************************************************************************)
(* Sensor calibration of spectra (C13) and calibration files (C30).        *)
(*                                                                         *)
(* A calibration has increasing integer frequencies f, magnitudes mag and  *)
(* phases phs in 48ths of a turn.                                          *)
(***************************************************************************)
EXTENDS Spectra

Turn48 == <<
    <<10000, 0>>, <<9914, 1305>>, <<9659, 2588>>, <<9239, 3827>>, <<8660, 5000>>, <<7934, 6088>>, <<7071, 7071>>, <<6088, 7934>>,
    <<5000, 8660>>, <<3827, 9239>>, <<2588, 9659>>, <<1305, 9914>>, <<0, 10000>>, <<-1305, 9914>>, <<-2588, 9659>>, <<-3827, 9239>>,
    <<-5000, 8660>>, <<-6088, 7934>>, <<-7071, 7071>>, <<-7934, 6088>>, <<-8660, 5000>>, <<-9239, 3827>>, <<-9659, 2588>>, <<-9914, 1305>>,
    <<-10000, 0>>, <<-9914, -1305>>, <<-9659, -2588>>, <<-9239, -3827>>, <<-8660, -5000>>, <<-7934, -6088>>, <<-7071, -7071>>, <<-6088, -7934>>,
    <<-5000, -8660>>, <<-3827, -9239>>, <<-2588, -9659>>, <<-1305, -9914>>, <<0, -10000>>, <<1305, -9914>>, <<2588, -9659>>, <<3827, -9239>>,
    <<5000, -8660>>, <<6088, -7934>>, <<7071, -7071>>, <<7934, -6088>>, <<8660, -5000>>, <<9239, -3827>>, <<9659, -2588>>, <<9914, -1305>> >>

RECURSIVE FileName(_, _, _, _)
\* a pattern is a sequence of parts
FileName(parts, sensor, serial, ext) ==
    IF parts = <<>> THEN ""
    ELSE LET p == Head(parts)
             s == CASE p = "$sensor" -> sensor [] p = "$serial" -> serial [] p = "$extension" -> ext [] OTHER -> p
         IN  s \o FileName(Tail(parts), sensor, serial, ext)

\* files[k] = [name, fmt, ...]; a reader can read a file of its own format only
File(files, name) == {k \in DOMAIN files : files[k].name = name}
Readable(reader, files, sensor, serial) ==
    \E k \in File(files, FileName(reader.parts, sensor, serial, reader.ext)) : files[k].fmt = reader.fmt
\* the file used for a channel: of the first reader that can read one; 0 when there is none
Chosen(readers, files, sensor, serial) ==
    LET good == {r \in DOMAIN readers : Readable(readers[r], files, sensor, serial)} IN
    IF good = {} THEN 0
    ELSE LET r == readers[SetMin(good)] IN
         CHOOSE k \in File(files, FileName(r.parts, sensor, serial, r.ext)) : files[k].fmt = r.fmt

\* magnitude as <<num, den>> and phase at frequency e
Magnitude(cal, e) == LET n == Neighbours(cal.f, e) IN
    <<cal.mag[n[1]] * n[4] + (cal.mag[n[2]] - cal.mag[n[1]]) * n[3], n[4]>>
Phase(cal, e) == LET n == Neighbours(cal.f, e) IN
    cal.phs[n[1]] + ((cal.phs[n[2]] - cal.phs[n[1]]) * n[3]) \div n[4]

Rotated(c, p) == LET t == Turn48[(p % 48) + 1] IN
    << (c[1] * t[1] - c[2] * t[2]) \div One, (c[1] * t[2] + c[2] * t[1]) \div One >>
\* is out (three decimals) the value v divided by the response at e
DividedBy(out, v, cal, e) ==
    LET m == Magnitude(cal, e) IN
    CNear(CScale(m[1], Rotated(out, Phase(cal, e))), CScale(1000 * m[2], v), 6 * m[1] + m[2])

(* text files *)
\* lines <<frequency, magnitude, phase>> by increasing frequency
RECURSIVE ByFreq(_)
ByFreq(S) == IF S = {} THEN <<>>
    ELSE LET m == CHOOSE x \in S : \A y \in S : x[1] <= y[1] IN <<m>> \o ByFreq(S \ {m})
\* millionths of a radian of whole degrees
Degrees(d) == (d * 3141593) \div 180
=============================================================================
