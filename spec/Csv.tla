--------------------------------- MODULE Csv ---------------------------------
(* Renderings of an event: dates, times and the exported record.               *)
EXTENDS PmlFormat

(***************************************************************************)
(* Timestamps: 100-nanosecond ticks since 1601-01-01 00:00 UTC.            *)
(***************************************************************************)
(* Seconds (bytes) and ticks within the second. *)
Ticks(t) == LET a == DivMod(t, 1000000)
                c == DivMod(a.q, 10)
            IN  [secs |-> c.q, ticks |-> c.r * 1000000 + a.r]

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y) == <<31, IF Leap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
RECURSIVE MonthOf(_, _, _)
MonthOf(days, m, d) == IF d < days[m] THEN <<m, d + 1>> ELSE MonthOf(days, m + 1, d - days[m])

(* Day number since 1601-01-01 (the start of a 400-year cycle) to <<y, m, d>>. *)
Civil(d) == LET d1 == d % 146097
                n100 == Min2(3, d1 \div 36524)
                d2 == d1 - n100 * 36524
                d3 == d2 % 1461
                n1 == Min2(3, d3 \div 365)
                y == 1601 + 400 * (d \div 146097) + 100 * n100 + 4 * (d2 \div 1461) + n1
                md == MonthOf(MonthDays(y), 1, d3 - n1 * 365)
            IN  <<y, md[1], md[2]>>

Moment(t) == LET k == Ticks(t)
                 s == DivMod(k.secs, 86400)
             IN  [days |-> IF IsZero(SubSeq(s.q, 5, Len(s.q))) /\ U32(s.q, 0) < HUGE THEN U32(s.q, 0) ELSE HUGE,
                  sec |-> s.r, ticks |-> k.ticks]

(* 1970-01-01 .. 9999-12-31, the range in which times are specified. *)
InRange(t) == LET m == Moment(t) IN m.days >= 134774 /\ m.days < 3067671

Hour12(s) == LET h == (s \div 3600) % 12 IN IF h = 0 THEN 12 ELSE h
Clock(m) == ToString(Hour12(m.sec)) \o ":" \o Pad((m.sec \div 60) % 60, 2) \o ":" \o Pad(m.sec % 60, 2)
Half(m) == IF m.sec < 43200 THEN " AM" ELSE " PM"
TimeOfDay(t) == LET m == Moment(t) IN Clock(m) \o "." \o Pad(m.ticks \div 1000, 4) \o Pad(m.ticks % 1000, 3) \o Half(m)
DateAndTime(t) == LET m == Moment(t)
                      c == Civil(m.days)
                  IN  ToString(c[2]) \o "/" \o ToString(c[3]) \o "/" \o ToString(c[1]) \o " " \o Clock(m) \o Half(m)
FullTime(t) == LET m == Moment(t)
                   c == Civil(m.days)
               IN  ToString(c[2]) \o "/" \o ToString(c[3]) \o "/" \o ToString(c[1]) \o " " \o TimeOfDay(t)
(* ISO form of the datetime, truncated to microseconds. *)
IsoDate(t) == LET m == Moment(t)
                  c == Civil(m.days)
              IN  Pad(c[1], 4) \o "-" \o Pad(c[2], 2) \o "-" \o Pad(c[3], 2) \o "T"
                  \o Pad(m.sec \div 3600, 2) \o ":" \o Pad((m.sec \div 60) % 60, 2) \o ":" \o Pad(m.sec % 60, 2)
                  \o "." \o Pad((m.ticks \div 10) \div 1000, 3) \o Pad((m.ticks \div 10) % 1000, 3)

Frac7(k) == Pad(k \div 1000, 4) \o Pad(k % 1000, 3)
DurationText(t) == LET k == Ticks(t) IN Dec(k.secs) \o "." \o Frac7(k.ticks)
RelativeText(t) == LET k == Ticks(t)
                       m == DivMod(k.secs, 3600)
                       h == Dec(m.q)
                   IN  (IF Len(h) = 1 THEN "0" \o h ELSE h) \o ":" \o Pad(m.r \div 60, 2) \o ":" \o Pad(m.r % 60, 2)
                       \o "." \o Frac7(k.ticks)

(***************************************************************************)
(* Text replacement.                                                       *)
(***************************************************************************)
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE Spaces(_, _, _)       \* underscores become spaces
Spaces(s, lo, hi) == IF lo > hi THEN ""
                     ELSE IF lo = hi THEN (IF Ch(s, lo) = "_" THEN " " ELSE Ch(s, lo))
                     ELSE LET m == (lo + hi) \div 2 IN Spaces(s, lo, m) \o Spaces(s, m + 1, hi)
RECURSIVE Breaks(_, _, _)       \* CR LF becomes LF ;
Breaks(s, lo, hi) ==
  IF lo > hi THEN ""
  ELSE IF lo = hi THEN
       (IF Ch(s, lo) = "\r" /\ lo < Len(s) THEN (IF Ch(s, lo + 1) = "\n" THEN "\n" ELSE "\r")
        ELSE IF Ch(s, lo) = "\n" /\ lo > 1 THEN (IF Ch(s, lo - 1) = "\r" THEN ";" ELSE "\n")
        ELSE Ch(s, lo))
  ELSE LET m == (lo + hi) \div 2 IN Breaks(s, lo, m) \o Breaks(s, m + 1, hi)

(***************************************************************************)
(* The Detail column.                                                      *)
(***************************************************************************)
Num(d) == IF Len(d.s) > 0 /\ Ch(d.s, 1) = "-" THEN "-" \o Dec(d.b) ELSE Dec(d.b)
NumCommas(d) == IF Len(d.s) > 0 /\ Ch(d.s, 1) = "-" THEN "-" \o Commas(d.b) ELSE Commas(d.b)
SpacedHexU(b) == Join([i \in DOMAIN b |-> HexByteU[b[i]]], " ")

Has(det, k) == \E i \in DOMAIN det : det[i].k = k
Get(det, k) == det[CHOOSE i \in DOMAIN det : det[i].k = k]
TextOf(det, k) == IF Has(det, k) THEN Get(det, k).s ELSE ""

RegDropped == {"TitleIndex", "MaxNameLen", "MaxValueNameLen", "MaxValueDataLen", "ClassOffset", "ClassLength",
               "MaxClassLen"}
RegKept(e, d) == /\ d.k \notin RegDropped
                 /\ ~(d.k = "LastWriteTime" /\ e.op # "RegSetInfoKey")
                 /\ ~(d.k = "Name" /\ (e.op = "RegQueryValue" \/ (e.op = "RegQueryKey" /\ TextOf(e.det, "Query") = "Name")))

Plain(d) == IF d.t = "i" THEN Num(d) ELSE d.s

DetailValue(e, d) ==
  CASE e.op = "Load_Image" /\ d.k \in {"Image Base", "Image Size"} -> "0x" \o d.s
    [] e.op = "Thread_Exit" /\ d.k \in {"User Time", "Kernel Time"} -> DurationText(d.b)
    [] e.op = "Process_Start" /\ d.k = "Environment" -> "\n;\t" \o Join(d.l, "\n;\t")
    [] e.class = "Registry" /\ d.k \in {"Length", "SubKeys", "Values", "Index"} -> NumCommas(d)
    [] e.class = "Registry" /\ d.k \in {"HandleTags", "UserFlags", "Wow64Flags"} -> "0x" \o d.s
    [] e.class = "Registry" /\ d.k = "LastWriteTime" -> DateAndTime(d.b)
    [] e.class = "Registry" /\ d.k = "Data" ->
         LET type == TextOf(e.det, "Type") IN
         CASE type = "REG_BINARY"   -> SpacedHexU(d.b)
           [] type = "REG_QWORD"    -> ""
           [] type = "REG_MULTI_SZ" -> Join(d.l, ", ")
           [] d.t = "s"             -> Breaks(d.s, 1, Len(d.s))
           [] OTHER                 -> Num(d)
    [] e.class = "File_System" /\ d.k \in {"AllocationSize", "Offset", "Length"} /\ d.t = "i" -> NumCommas(d)
    [] OTHER -> Plain(d)

DetailColumn(e) ==
  LET kept == IF e.class = "Registry" THEN SelectSeq(e.det, LAMBDA d : RegKept(e, d)) ELSE e.det
  IN  Join([i \in DOMAIN kept |-> kept[i].k \o ": " \o DetailValue(e, kept[i])], ", ")
(* Not every detail is specified, or a time in it is out of range. *)
DetailOpen(e) == \E i \in DOMAIN e.det :
                    \/ e.det[i].t = "*"
                    \/ e.op = "RegSetInfoKey" /\ e.det[i].k = "LastWriteTime" /\ ~InRange(e.det[i].b)

(* Some time in the record is out of range: whether there is a record is left open. *)
TimesOpen(e) == \/ ~InRange(e.dateb) \/ ~InRange(Add(e.dateb, e.durb))
                \/ \E i \in DOMAIN e.det : e.op = "RegSetInfoKey" /\ e.det[i].k = "LastWriteTime" /\ ~InRange(e.det[i].b)

(***************************************************************************)
(* The whole record, as <<heading, value>>; p is the event's process and   *)
(* first the timestamp relative times count from.                          *)
(***************************************************************************)
ResultText(e) == IF e.res \in DOMAIN ResultName THEN ResultName[e.res] ELSE "0x" \o HexU(e.resb)
Unspecified == "(unspecified)"

TimeColumns == {"Date & Time", "Time of Day", "Relative Time", "Duration", "Completion Time"}

CsvRecord(e, p, first) ==
  LET blank == ResultText(e) = ""
      end == Add(e.dateb, e.durb)
      ok == InRange(e.dateb)
  IN
  <<<<"Date & Time", IF ok THEN DateAndTime(e.dateb) ELSE Unspecified>>,
    <<"Process Name", p.f[9]>>,
    <<"PID", Dec(p.pid)>>,
    <<"Operation", IF e.class = "File_System" /\ Len(e.op) > 10
                        /\ SubSeq(e.op, Max2(1, Len(e.op) - 8), Len(e.op)) = "<Unknown>" THEN "<Unknown>"
                   ELSE IF e.class = "Process" THEN Spaces(e.op, 1, Len(e.op)) ELSE e.op>>,
    <<"Result", ResultText(e)>>,
    <<"Detail", IF DetailOpen(e) THEN Unspecified ELSE DetailColumn(e)>>,
    <<"Sequence", "n/a">>,
    <<"Company", p.f[12]>>,
    <<"Description", p.f[14]>>,
    <<"Command Line", p.f[11]>>,
    <<"User", p.f[8]>>,
    <<"Image Path", p.f[10]>>,
    <<"Session", Dec(p.session)>>,
    <<"Path", e.path>>,
    <<"TID", Dec(e.tidb)>>,
    <<"Relative Time", IF ok /\ Leq(first, e.dateb) THEN RelativeText(Minus(e.dateb, first)) ELSE Unspecified>>,
    <<"Duration", IF blank THEN "" ELSE DurationText(e.durb)>>,
    <<"Time of Day", IF ok THEN TimeOfDay(e.dateb) ELSE Unspecified>>,
    <<"Version", p.f[13]>>,
    <<"Event Class", IF e.class = "File_System" THEN "File System" ELSE e.class>>,
    <<"Authentication ID", HexPad(SubSeq(p.auth, 5, 8)) \o ":" \o HexPad(SubSeq(p.auth, 1, 4))>>,
    <<"Virtualized", CASE Hex(p.virt) = "0" -> "False" [] Hex(p.virt) = "1" -> "True" [] OTHER -> "n/a">>,
    <<"Integrity", p.f[7]>>,
    <<"Category", e.cat>>,
    <<"Parent PID", Dec(p.ppid)>>,
    <<"Architecture", IF p.f[6] = "1" THEN "64-bit" ELSE "32-bit">>,
    <<"Completion Time", IF blank THEN "" ELSE IF ok /\ InRange(end) THEN TimeOfDay(end) ELSE Unspecified>>>>

(***************************************************************************)
(* Printed forms: of an event, a process and a module (as in the README).   *)
(* op, path, name and image are the texts the object carries; pid and the   *)
(* time are numbers (bytes), base and size hexadecimal.                     *)
(***************************************************************************)
Quoted(s) == "\"" \o s \o "\""
PrintedEvent(name, pid, op, path, date) ==
  "Process Name=" \o name \o ", Pid=" \o Dec(pid) \o ", Operation=" \o op \o ", Path=" \o Quoted(path) \o ", Time=" \o FullTime(date)
PrintedProcess(image, pid) == Quoted(image) \o ", " \o Dec(pid)
PrintedModule(path, base, size) == Quoted(path) \o ", address=0x" \o base \o ", size=0x" \o size
=============================================================================
