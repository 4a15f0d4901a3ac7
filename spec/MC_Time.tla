-------------------------------- MODULE MC_Time --------------------------------
(* A wall clock with a calendar, advanced a day or a second at a time, against *)
(* the renderings of timestamps in Csv.                                        *)
EXTENDS Csv

VARIABLES n, y, m, d, h, mi, s, pm        \* day number since 1601; what the calendar and the clock show
tvars == <<n, y, m, d, h, mi, s, pm>>

Number(t) == CHOOSE k \in 0..100000 : ToString(k) = t
Mode   == IOEnv.VERIF_MODE
Stride == Number(IOEnv.VERIF_STRIDE)
Phase  == Number(IOEnv.VERIF_PHASE)

(* The calendar: thirty days have September, April, June and November. *)
LastDay == CASE m \in {4, 6, 9, 11} -> 30
             [] m = 2 -> (IF y % 400 = 0 \/ (y % 4 = 0 /\ y % 100 # 0) THEN 29 ELSE 28)
             [] OTHER -> 31
Tomorrow == /\ n' = n + 1
            /\ IF d < LastDay THEN d' = d + 1 /\ UNCHANGED <<m, y>>
               ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y ELSE m' = 1 /\ y' = y + 1
            /\ UNCHANGED <<h, mi, s, pm>>
(* The clock: twelve is followed by one, and noon and midnight by the other half. *)
Second == /\ s' = (s + 1) % 60
          /\ mi' = IF s = 59 THEN (mi + 1) % 60 ELSE mi
          /\ h' = IF s = 59 /\ mi = 59 THEN (IF h = 12 THEN 1 ELSE h + 1) ELSE h
          /\ pm' = IF s = 59 /\ mi = 59 /\ h = 11 THEN ~pm ELSE pm
          /\ IF s = 59 /\ mi = 59 /\ h = 11 /\ pm
             THEN n' = n + 1 /\ IF d < LastDay THEN d' = d + 1 /\ UNCHANGED <<m, y>> ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y ELSE m' = 1 /\ y' = y + 1
             ELSE UNCHANGED <<n, y, m, d>>

(* Days before the first of January of a year. *)
NewYear(yy) == LET k == yy - 1 IN 365 * (yy - 1601) + (k \div 4 - 400) - (k \div 100 - 16) + (k \div 400 - 4)
Years == {yy \in 1970..9999 : (yy % Stride) = (Phase % Stride)}
LeapDays == {<<1999, 12, 31>>, <<2000, 2, 28>>, <<2000, 2, 29>>, <<2024, 12, 31>>, <<9999, 12, 30>>}
DayNumber(t) == CHOOSE k \in 0..366 : Civil(NewYear(t[1]) + k) = t
TInit == IF Mode = "days"
         THEN /\ y \in Years /\ n = NewYear(y) /\ m = 1 /\ d = 1 /\ h = 12 /\ mi = 0 /\ s = 0 /\ pm = FALSE
         ELSE \E t \in LeapDays :
              /\ y = t[1] /\ m = t[2] /\ d = t[3] /\ n = NewYear(y) + DayNumber(t)
              /\ pm \in BOOLEAN /\ h \in 1..12 /\ mi \in {k \in 0..59 : (k % Stride) = (Phase % Stride)} /\ s = 0
TNext == IF Mode = "days" THEN Tomorrow /\ y' = y ELSE Second /\ s # 59
TSpec == TInit /\ [][TNext]_tvars

(* The moment the clock shows, plus some ticks of 100 ns. *)
Hour24 == IF pm THEN (IF h = 12 THEN 12 ELSE h + 12) ELSE (IF h = 12 THEN 0 ELSE h)
Clipped(b) == SubSeq(b, 1, 8)
Stamp(days, secs, ticks) ==
  LET all == Clipped(Add(Clipped(Mul(LE(days, 8), 86400)), LE(secs, 8)))
  IN  Clipped(Add(Clipped(Mul(Clipped(Mul(all, 1000000)), 10)), LE(ticks, 8)))
Chosen == ((n + mi + s) % 8) + 1
Tick == <<0, 1, 9999999, 1234567, 10, 999, 1000000, 9999990>>[Chosen]
SecondOfDay == Hour24 * 3600 + mi * 60 + s
Now == Stamp(n, SecondOfDay, Tick)

TwoDigits(k) == IF k < 10 THEN "0" \o ToString(k) ELSE ToString(k)
Frac == <<"0000000", "0000001", "9999999", "1234567", "0000010", "0000999", "1000000", "9999990">>[Chosen]
Shown == LET clock == ToString(h) \o ":" \o TwoDigits(mi) \o ":" \o TwoDigits(s)
             half == IF pm THEN " PM" ELSE " AM"
         IN  [tod |-> clock \o "." \o Frac \o half,
              full |-> ToString(m) \o "/" \o ToString(d) \o "/" \o ToString(y) \o " " \o clock \o "." \o Frac \o half,
              date |-> ToString(m) \o "/" \o ToString(d) \o "/" \o ToString(y) \o " " \o clock \o half,
              iso |-> ToString(y) \o "-" \o TwoDigits(m) \o "-" \o TwoDigits(d) \o "T" \o TwoDigits(Hour24) \o ":" \o TwoDigits(mi) \o ":" \o TwoDigits(s)
                      \o "." \o SubSeq(Frac, 1, 6)]
Right == LET t == Now IN
         /\ Civil(n) = <<y, m, d>> /\ InRange(t)
         /\ TimeOfDay(t) = Shown.tod /\ FullTime(t) = Shown.full /\ DateAndTime(t) = Shown.date /\ IsoDate(t) = Shown.iso
(* The end of a year is the beginning of the next. *)
Joined == (m = 12 /\ d = 31) => n + 1 = NewYear(y + 1)
(* The same clock as a stopwatch that has run for some days. *)
Ran == n % 20000
Span == Stamp(Ran, SecondOfDay, Tick)
Spans == LET hours == Ran * 24 + Hour24 IN
         /\ DurationText(Span) = ToString(Ran * 86400 + SecondOfDay) \o "." \o Frac
         /\ RelativeText(Span) = (IF hours < 10 THEN "0" ELSE "") \o ToString(hours) \o ":" \o TwoDigits(mi) \o ":" \o TwoDigits(s) \o "." \o Frac

Boundary == Mode # "days" \/ d = 1 \/ d >= LastDay \/ (m = 2 /\ d = 28) \/ ((n % 31) = (Phase % 31))
Export == Boundary => PrintT(<<"T", BytesHex(Now), BytesHex(Span)>>)
=============================================================================
