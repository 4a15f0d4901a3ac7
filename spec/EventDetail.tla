----------------------------- MODULE EventDetail -----------------------------
(* What the variable part of an event record means: operation name, path,      *)
(* category and ordered details, for each event class.                         *)
(*                                                                             *)
(* Inputs: b - the detail structure, x - the extra-detail structure (hasx says *)
(* whether the record points to one), pv - the pointer size of the capture.    *)
(* A result has wf = FALSE when the structure does not hold what its own       *)
(* fields announce; the specification then says nothing about that event       *)
(* except that no other event is affected.                                     *)
EXTENDS Bin, Tables

(* One detail: key, kind ("i" integer in hex, "s" text, "b" bytes in hex, "l"  *)
(* list of texts, "*" unspecified) and value.                                  *)
(* An integer also keeps its magnitude as bytes (b), for decimal renderings.    *)
DInt(k, b)  == [k |-> k, t |-> "i", s |-> Hex(b), l |-> <<>>, b |-> b]
DSInt(k, b) == [k |-> k, t |-> "i", s |-> SHex(b), l |-> <<>>, b |-> Magnitude(b)]
DStr(k, s)  == [k |-> k, t |-> "s", s |-> s, l |-> <<>>, b |-> <<>>]
DBin(k, b)  == [k |-> k, t |-> "b", s |-> BytesHex(b), l |-> <<>>, b |-> b]
DList(k, l) == [k |-> k, t |-> "l", s |-> "", l |-> l, b |-> <<>>]
DAny(k)     == [k |-> k, t |-> "*", s |-> "", l |-> <<>>, b |-> <<>>]

R(wf, op, path, cat, det) ==
  [wf |-> wf, op |-> op, path |-> path, base |-> path, cat |-> cat, det |-> det]
Bad(op) == R(FALSE, op, "", "", <<>>)

Lookup(table, k, default) == IF k \in DOMAIN table THEN table[k] ELSE default

(* A counted text: bit 15 of the count selects one byte per character. *)
IsAscii(v)    == v >= 32768
TextSize(v)   == IF IsAscii(v) THEN v - 32768 ELSE 2 * v
TextWf(b, o, v) == /\ Avail(b, o, TextSize(v))
                   /\ IsAscii(v) => \A i \in (o + 1)..(o + TextSize(v)) : b[i] \in 1..127
Text(b, o, v) == IF IsAscii(v) THEN Ascii(b, o, TextSize(v)) ELSE Utf16(b, o, TextSize(v))

(***************************************************************************)
(* Network                                                                 *)
(***************************************************************************)
Dotted(ip) == ToString(ip[1]) \o "." \o ToString(ip[2]) \o "." \o ToString(ip[3]) \o "." \o ToString(ip[4])
Group(ip, g) == Hex(<<ip[2 * g + 2], ip[2 * g + 1]>>)
Colons(ip) == Join([g \in 1..8 |-> Group(ip, g - 1)], ":")

(* hosts: sequence of <<ip, name>>, ports: sequence of <<port, tcp, name>>; a  *)
(* later entry for the same key replaces an earlier one.                       *)
LastWith(seq, P(_)) == LET is == {i \in DOMAIN seq : P(seq[i])} IN
                       IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : j <= i
HostText(hosts, ip, v4) ==
  LET i == LastWith(hosts, LAMBDA h : h.ip = ip) IN
  IF i > 0 /\ hosts[i].name # "" THEN hosts[i].name
  ELSE IF v4 THEN Dotted(ip) ELSE Colons(ip)
PortText(ports, port, tcp) ==
  LET i == LastWith(ports, LAMBDA p : p.port = port /\ p.tcp = tcp) IN
  IF i > 0 THEN ports[i].name ELSE ToString(port)

(* Details behave as an ordered map: assigning an existing key keeps its place. *)
Put(det, d) == LET is == {i \in DOMAIN det : det[i].k = d.k} IN
               IF is = {} THEN Append(det, d)
               ELSE [det EXCEPT ![CHOOSE i \in is : TRUE] = d]

Network(op, b, hosts, ports) ==
  LET v4s == U16(b, 0) % 2 = 1
      v4d == (U16(b, 0) \div 2) % 2 = 1
      tcp == (U16(b, 0) \div 4) % 2 = 1
      path == HostText(hosts, Sub(b, 8, 16), v4s) \o ":" \o PortText(ports, U16(b, 40), tcp) \o " -> "
              \o HostText(hosts, Sub(b, 24, 16), v4d) \o ":" \o PortText(ports, U16(b, 42), tcp)
      kv == MultiSz(b, 44, HUGE)
      pairs == [i \in 1..(Len(kv) \div 2) |-> DStr(kv[2 * i - 1], kv[2 * i])]
  IN  IF Len(b) < 44 \/ (Len(b) % 2) = 1 THEN Bad(op)
      ELSE R(TRUE, (IF tcp THEN "TCP " ELSE "UDP ") \o op, path, "",
             FoldLeft(Put, <<DInt("Length", Sub(b, 4, 4))>>, pairs))

(***************************************************************************)
(* Process and thread                                                      *)
(***************************************************************************)
ProcessCreated(op, b) ==
  LET o == 52 + U8(b, 44) + U8(b, 45)
      pi == U16(b, 46)
      ci == U16(b, 48)
      o2 == o + TextSize(pi)
  IN  IF Len(b) < 52 THEN Bad(op)
      ELSE IF ~TextWf(b, o, pi) THEN Bad(op)
      ELSE IF ~TextWf(b, o2, ci) THEN Bad(op)
      ELSE R(TRUE, op, Text(b, o, pi), "",
             <<DInt("PID", Sub(b, 4, 4)), DStr("Command line", Text(b, o2, ci))>>)

ProcessStarted(op, b) ==
  LET ci == U16(b, 4)
      di == U16(b, 6)
      n  == U32(b, 8)
      o2 == 12 + TextSize(ci)
      o3 == o2 + TextSize(di)
  IN  IF Len(b) < 12 THEN Bad(op)
      ELSE IF ~TextWf(b, 12, ci) THEN Bad(op)
      ELSE IF ~TextWf(b, o2, di) \/ n = HUGE THEN Bad(op)
      ELSE IF ~Avail(b, o3, 2 * n) THEN Bad(op)
      ELSE R(TRUE, op, "", "",
             <<DInt("Parent PID", Sub(b, 0, 4)),
               DStr("Command line", Text(b, 12, ci)),
               DStr("Current directory", Text(b, o2, di)),
               DList("Environment", MultiSz(b, o3, 2 * n))>>)

ProcessExit(op, b) ==
  IF Len(b) < 52 THEN Bad(op)
  ELSE R(TRUE, op, "", "",
         <<DInt("Exit Status", Sub(b, 0, 4)),
           DInt("User Time", Sub(b, 12, 8)),
           DInt("Kernel Time", Sub(b, 4, 8)),
           DInt("Private Bytes", Sub(b, 36, 8)),
           DInt("Peak Private Bytes", Sub(b, 44, 8)),
           DInt("Working Set", Sub(b, 20, 8)),
           DInt("Peak Working Set", Sub(b, 28, 8))>>)

LoadImage(op, b, pv) ==
  LET i == U16(b, pv + 4)
  IN  IF Len(b) < pv + 8 THEN Bad(op)
      ELSE IF ~TextWf(b, pv + 8, i) THEN Bad(op)
      ELSE R(TRUE, op, Text(b, pv + 8, i), "",
             <<DInt("Image Base", Sub(b, 0, pv)), DInt("Image Size", Sub(b, pv, 4))>>)

ThreadCreate(op, b) ==
  IF Len(b) < 4 THEN Bad(op) ELSE R(TRUE, op, "", "", <<DInt("Thread ID", Sub(b, 0, 4))>>)

ThreadExit(op, b, tid) ==
  IF Len(b) < 20 THEN Bad(op)
  ELSE R(TRUE, op, "", "", <<DInt("Thread ID", tid), DInt("User Time", Sub(b, 12, 8)),
                             DInt("Kernel Time", Sub(b, 4, 8))>>)

ProcessEvent(op, b, pv, tid) ==
  CASE op \in {"Process_Defined", "Process_Create"}     -> ProcessCreated(op, b)
    [] op = "Process_Start"                              -> ProcessStarted(op, b)
    [] op \in {"Process_Exit", "Process_Statistics"}     -> ProcessExit(op, b)
    [] op = "Load_Image"                                 -> LoadImage(op, b, pv)
    [] op = "Thread_Create"                              -> ThreadCreate(op, b)
    [] op = "Thread_Exit"                                -> ThreadExit(op, b, tid)
    [] OTHER                                             -> R(TRUE, op, "", "", <<>>)

(***************************************************************************)
(* Flag words                                                              *)
(***************************************************************************)
Generic(bits, g) == bits \cup (IF 31 \in bits THEN g[1] ELSE {}) \cup (IF 30 \in bits THEN g[2] ELSE {})
                         \cup (IF 29 \in bits THEN g[3] ELSE {}) \cup (IF 28 \in bits THEN g[4] ELSE {})
AccessText(b, table, g) ==
  LET t == MaskText(Generic(Bits(b), g), table, ", ")
  IN  IF t = "" THEN "None 0x" \o Hex(b) ELSE t
RegAccessText(b)  == AccessText(b, RegistryAccess, RegistryGeneric)
FileAccessText(b) == AccessText(b, FileAccess, FileGeneric)

(***************************************************************************)
(* Registry                                                                *)
(***************************************************************************)
RegKeyHandled == {"RegOpenKey", "RegCreateKey", "RegQueryKey", "RegEnumKey", "RegSetInfoKey", "RegLoadKey", "RegRenameKey"}
RegCat(op) == CASE op \in {"RegQueryMultipleValueKey", "RegQueryKey", "RegEnumKey", "RegQueryValue", "RegEnumValue",
                           "RegOpenKey", "RegCreateKey"}                     -> "Read"
                [] op \in {"RegSetKeySecurity", "RegSetInfoKey"}             -> "Write Metadata"
                [] op = "RegQueryKeySecurity"                                -> "Read Metadata"
                [] op \in {"RegDeleteKey", "RegDeleteValue", "RegRenameKey", "RegSetValue"} -> "Write"
                [] OTHER                                                     -> ""

RegType(b) == LET h == Hex(b) IN
              IF Len(h) = 1 /\ IntOf(b) \in DOMAIN RegTypeName THEN RegTypeName[IntOf(b)]
              ELSE "<Unknown: " \o Dec(b) \o ">"
IsUnknownType(b) == ~(Len(Hex(b)) = 1 /\ IntOf(b) \in DOMAIN RegTypeName)

(* The data of a value of the given type: n announced bytes at o of block b.   *)
RegData(b, o, n, type) ==
  LET m == Max2(0, Min2(n, Len(b) - o)) IN
  CASE type = "REG_DWORD" ->
         (IF Avail(b, o, 4) THEN (IF n >= 4 THEN DInt("Data", Sub(b, o, 4)) ELSE DAny("Data"))
          ELSE DStr("Data", ""))
    [] type = "REG_QWORD" ->
         (IF Avail(b, o, 8) THEN (IF n >= 8 THEN DInt("Data", Sub(b, o, 8)) ELSE DAny("Data"))
          ELSE DStr("Data", ""))
    [] type \in {"REG_SZ", "REG_EXPAND_SZ"} ->
         LET t == Utf16ToEnd(b, o) IN
         IF o <= Len(b) /\ ((Len(b) - o) % 2) = 1
            THEN (IF FirstZero(b, o, 0, (Len(b) - o) \div 2) < (Len(b) - o) \div 2 THEN DStr("Data", t) ELSE DAny("Data"))
         ELSE IF o + n < Len(b) /\ FirstZero(b, o, 0, m \div 2) = m \div 2 THEN DAny("Data")
         ELSE DStr("Data", t)
    [] type = "REG_BINARY" -> DBin("Data", Sub(b, o, m))
    [] type = "REG_MULTI_SZ" ->
         IF (m % 2) = 1 \/ (n % 2) = 1 THEN DAny("Data") ELSE DList("Data", MultiSz(b, o, n))
    [] OTHER -> DStr("Data", "")

(* KEY_xxx_INFORMATION blocks. *)
KeyBlock(class, x) ==
  LET time == DInt("LastWriteTime", Sub(x, 0, 8))
      u(k, o) == DInt(k, Sub(x, o, 4))
  IN
  CASE class = "Name" ->
         [n |-> 4, d |-> <<DStr("Name", Utf16(x, 4, U32(x, 0)))>>]
    [] class = "HandleTags" -> [n |-> 4, d |-> <<u("HandleTags", 0)>>]
    [] class = "Flags"      -> [n |-> 4, d |-> <<u("UserFlags", 0)>>]
    [] class = "Cached" ->
         [n |-> 32, d |-> <<time, u("TitleIndex", 8), u("SubKeys", 12), u("MaxNameLen", 16), u("Values", 20),
                            u("MaxValueNameLen", 24), u("MaxValueDataLen", 28)>>]
    [] class = "Basic" ->
         [n |-> 16, d |-> <<time, u("TitleIndex", 8), DStr("Name", Utf16(x, 16, U32(x, 12)))>>]
    [] class = "Full" ->
         [n |-> 44, d |-> <<time, u("TitleIndex", 8), u("ClassOffset", 12), u("ClassLength", 16), u("SubKeys", 20),
                            u("MaxNameLen", 24), u("MaxClassLen", 28), u("Values", 32), u("MaxValueNameLen", 36),
                            u("MaxValueDataLen", 40)>>]
    [] class = "Node" ->
         [n |-> 24, d |-> <<time, u("TitleIndex", 8), u("ClassOffset", 12), u("ClassLength", 16),
                            DStr("Name", Utf16(x, 24, U32(x, 20)))>>]
    [] OTHER -> [n |-> 0, d |-> <<>>]
KeyBlockFixed == ("Name" :> 4) @@ ("HandleTags" :> 4) @@ ("Flags" :> 4) @@ ("Cached" :> 32) @@ ("Basic" :> 16)
                 @@ ("Full" :> 44) @@ ("Node" :> 24) @@ ("Virtualization" :> 0) @@ ("Trust" :> 0) @@ ("Layer" :> 0)
NameSizeAt == ("Name" :> 0) @@ ("Basic" :> 12) @@ ("Node" :> 20)
(* The name of a block is announced in whole code units and either fits the    *)
(* block or is cut by its end at a whole code unit.                            *)
NameWf(x, at, fixed) == LET n == U32(x, at)
                            a == Len(x) - fixed
                        IN  (n % 2) = 0 /\ n < HUGE /\ (n <= a \/ (a % 2) = 0)

RegKeyInfo(op, path, length, class, first, hasx, x) ==
  IF Hex(class) \notin {"0","1","2","3","4","5","6","7","8","9"} THEN Bad(op)
  ELSE LET c == KeyInfoClass[IntOf(class)]
           head == IF op = "RegEnumKey" THEN first ELSE <<DStr("Query", c)>>
       IN  IF ~hasx THEN R(TRUE, op, path, "Read", Append(head, DInt("Length", length)))
           ELSE IF Len(x) < KeyBlockFixed[c] THEN Bad(op)
           ELSE IF c \in DOMAIN NameSizeAt /\ ~NameWf(x, NameSizeAt[c], KeyBlockFixed[c]) THEN Bad(op)
           ELSE R(TRUE, op, path, "Read", FoldLeft(Put, head, KeyBlock(c, x).d))

RegValueInfo(op, path, length, class, first, hasx, x) ==
  LET head == IF op = "RegEnumValue" THEN first ELSE <<>> IN
  IF Hex(class) \notin {"0","1","2","3","4","5"} THEN Bad(op)
  ELSE LET c == ValueInfoClass[IntOf(class)] IN
       IF ~hasx THEN R(TRUE, op, path, "Read", Append(head, DInt("Length", length)))
       ELSE IF Len(x) < 8 THEN Bad(op)
       ELSE LET tb == Sub(x, 4, 4)
                type == DStr("Type", RegType(tb))
            IN
            CASE c = "KeyValueFullInformation" ->
                   IF Len(x) < 20 THEN Bad(op)
                   ELSE IF U32(x, 8) = HUGE \/ U32(x, 12) = HUGE \/ ~NameWf(x, 16, 20) THEN Bad(op)
                   ELSE LET n == U32(x, 12)
                            d == head \o <<DStr("Name", Utf16(x, 20, U32(x, 16))), type, DInt("Length", Sub(x, 12, 4))>>
                        IN  R(TRUE, op, path, "Read", IF n > 0 THEN Append(d, RegData(x, U32(x, 8), n, RegType(tb))) ELSE d)
              [] c = "KeyValuePartialInformation" ->
                   IF Len(x) < 12 THEN Bad(op)
                   ELSE IF U32(x, 8) = HUGE THEN Bad(op)
                   ELSE LET n == U32(x, 8)
                            d == head \o <<type, DInt("Length", Sub(x, 8, 4))>>
                        IN  R(TRUE, op, path, "Read", IF n > 0 THEN Append(d, RegData(x, 12, n, RegType(tb))) ELSE d)
              [] OTHER -> R(TRUE, op, path, "Read", Append(head, type))

RegOpen(op, path, access, hasx, x) ==
  IF IsZero(access) THEN R(TRUE, op, path, "Read", <<>>)
  ELSE LET a == RegAccessText(access)
           head == <<DStr("Desired Access", a)>>
       IN  IF ~hasx THEN R(TRUE, op, path, "Read", head)
           ELSE IF Len(x) < 8 THEN Bad(op)
           ELSE LET disp == Hex(Sub(x, 4, 4))
                    g == IF a = "Maximum Allowed" THEN <<DStr("Granted Access", RegAccessText(Sub(x, 0, 4)))>> ELSE <<>>
                    t == CASE disp = "1" -> <<DStr("Disposition", "REG_CREATED_NEW_KEY")>>
                           [] disp = "2" -> <<DStr("Disposition", "REG_OPENED_EXISTING_KEY")>>
                           [] OTHER -> <<>>
                IN  R(TRUE, op, path, IF disp = "1" THEN "Write" ELSE "Read", head \o g \o t)

RegSetInfo(op, path, class, length, b, o) ==
  LET h == Hex(class)
      name == CASE h = "0" -> "KeyWriteTimeInformation"
                [] h = "1" -> "KeyWow64FlagsInformation"
                [] h = "5" -> "KeySetHandleTagsInformation"
                [] OTHER -> "<Unknown: " \o Dec(class) \o ">"
      head == <<DStr("KeySetInformationClass", name), DInt("Length", length)>>
      r(d) == R(TRUE, op, path, "Write Metadata", d)
  IN  IF IsZero(length) \/ h \notin {"0", "1", "5"} THEN r(head)
      ELSE IF ~Avail(b, o, IF h = "0" THEN 8 ELSE 4) THEN Bad(op)
      ELSE r(Append(head, CASE h = "0" -> DInt("LastWriteTime", Sub(b, o, 8))
                            [] h = "1" -> DInt("Wow64Flags", Sub(b, o, 4))
                            [] h = "5" -> DInt("HandleTags", Sub(b, o, 4))))

RegSetValue(op, path, type, length, datalen, b, o) ==
  LET n == Min2(U32(length, 0), U32(datalen, 0))
      d == <<DStr("Type", RegType(type)), DInt("Length", length)>>
  IN  IF U32(length, 0) = HUGE /\ U32(datalen, 0) = HUGE THEN Bad(op)
      ELSE R(TRUE, op, path, "Write",
             IF n > 0 /\ ~IsUnknownType(type) THEN Append(d, RegData(b, o, n, RegType(type))) ELSE d)

(* Size of the fixed part before the path. *)
RegFixed(op) == CASE op \in {"RegLoadKey", "RegRenameKey"}    -> 4
                  [] op \in {"RegOpenKey", "RegCreateKey"}    -> 8
                  [] op \in {"RegQueryKey", "RegQueryValue"}  -> 12
                  [] op \in {"RegEnumValue", "RegEnumKey", "RegSetInfoKey", "RegSetValue"} -> 16
                  [] OTHER                                    -> 2

Registry(op, b, hasx, x) ==
  LET f == RegFixed(op)
      pi == U16(b, 0)
      o == f + TextSize(pi)        \* first byte after the path
      u(k) == Sub(b, k, 4)
      path == Text(b, f, pi)
      ni == U16(b, 2)
  IN
  IF Len(b) < f THEN Bad(op)
  ELSE IF ~TextWf(b, f, pi) THEN Bad(op)
  ELSE
  CASE op \in {"RegLoadKey", "RegRenameKey"} ->
         IF ~TextWf(b, o, ni) THEN Bad(op)
         ELSE R(TRUE, op, path, RegCat(op),
                <<DStr(IF op = "RegLoadKey" THEN "Hive Path" ELSE "New Name", Text(b, o, ni))>>)
    [] op \in {"RegOpenKey", "RegCreateKey"} -> RegOpen(op, path, u(4), hasx, x)
    [] op = "RegQueryKey"   -> RegKeyInfo(op, path, u(4), u(8), <<>>, hasx, x)
    [] op = "RegEnumKey"    -> RegKeyInfo(op, path, u(4), u(12), <<DInt("Index", u(8))>>, hasx, x)
    [] op = "RegQueryValue" -> RegValueInfo(op, path, u(4), u(8), <<>>, hasx, x)
    [] op = "RegEnumValue"  -> RegValueInfo(op, path, u(4), u(12), <<DInt("Index", u(8))>>, hasx, x)
    [] op = "RegSetInfoKey" -> RegSetInfo(op, path, u(4), Sub(b, 12, 2), b, o)
    [] op = "RegSetValue"   -> RegSetValue(op, path, u(4), u(8), u(12), b, o)
    [] OTHER -> R(TRUE, op, path, RegCat(op), <<>>)

(***************************************************************************)
(* File system                                                             *)
(***************************************************************************)
SubTable(op) == CASE op = "QueryVolumeInformation" -> QueryVolumeSub
                  [] op = "SetVolumeInformation"   -> SetVolumeSub
                  [] op = "QueryInformationFile"   -> QueryFileSub
                  [] op = "SetInformationFile"     -> SetFileSub
                  [] op = "DirectoryControl"       -> DirectorySub
                  [] op = "PlugAndPlay"            -> PnpSub
                  [] op = "LockUnlockFile"         -> LockSub
HasSub(op) == op \in {"QueryVolumeInformation", "SetVolumeInformation", "QueryInformationFile", "SetInformationFile",
                      "DirectoryControl", "PlugAndPlay", "LockUnlockFile"}
FileOpName(op, sub) == IF sub = 0 \/ ~HasSub(op) THEN op
                       ELSE Lookup(SubTable(op), sub, op \o " <Unknown>")

(* S-revision-authority-subauthorities; empty when the layout is not version 1. *)
SidText(s) ==
  LET n == s[2] IN
  IF s[1] # 1 \/ Len(s) # 8 + 4 * n THEN ""
  ELSE "S-1-" \o Dec([i \in 1..6 |-> s[9 - i]])
       \o (IF n = 0 THEN "" ELSE "-" \o Join([i \in 1..n |-> Dec(SubSeq(s, 5 + 4 * i, 8 + 4 * i))], "-"))

(* d: the fixed parameter block of the request (pointer-size dependent). *)
CreateFile(op, path, b, o, d, pv, hasx, x) ==
  LET at(k32, k64) == IF pv = 8 THEN k64 ELSE k32
      disp == U8(d, at(16, 20) + 3)
      opts == Sub(d, at(16, 20), 3)
      attr == Sub(d, at(20, 28), 2)
      shar == Sub(d, at(22, 30), 2)
      allo == Sub(d, at(36, 52), 4)
      sidlen == U8(b, o + 4)
      dispName == Lookup(FileDisposition, disp, "<unknown>")
      res == IF hasx THEN Hex(Sub(x, 0, 4)) ELSE "none"
      resName == IF res \in {"0", "1", "2", "3", "4", "5"} THEN FileOpenResult[U8(x, 0)] ELSE "<unknown>"
      cat == CASE res \in {"0", "2", "3"} -> "Write"
               [] res \in {"1", "4", "5"} -> ""
               [] dispName \in {"Open", "<unknown>"} -> ""
               [] OTHER -> "Write"
  IN  IF ~Avail(b, o, 8) THEN Bad(op)
      ELSE IF sidlen > 0 /\ (sidlen < 8 \/ ~Avail(b, o + 8, sidlen)) THEN Bad(op)
      ELSE IF hasx /\ Len(x) < 4 THEN Bad(op)
      ELSE R(TRUE, op, path, cat,
             <<DStr("Desired Access", FileAccessText(Sub(b, o, 4))),
               DStr("Disposition", dispName),
               DStr("Options", MaskText(Bits(opts), CreateOptions, ", ")),
               DStr("Attributes", IF IsZero(attr) THEN "n/a" ELSE MaskText(Bits(attr), FileAttributes, "")),
               DStr("ShareMode", IF IsZero(shar) THEN "None" ELSE MaskText(Bits(shar), ShareModes, ", ")),
               IF disp \in {0, 2, 3, 5} THEN DInt("AllocationSize", allo) ELSE DStr("AllocationSize", "n/a")>>
             \o (IF sidlen > 0 THEN <<DStr("Impersonating", SidText(Sub(b, o + 8, sidlen)))>> ELSE <<>>)
             \o (IF hasx THEN <<DStr("OpenResult", resName)>> ELSE <<>>))

CreateMapping(op, path, d) ==
  LET sync == Sub(d, 12, 4)
      bits == Bits(Sub(d, 16, 4))
      prot == SelectSeq(PageProtections, LAMBDA p : p[1] \in bits)
  IN  R(TRUE, op, path, "",
        <<DStr("SyncType", IF Hex(sync) \in {"0", "1"} THEN SyncType[U8(sync, 0)] ELSE "Unknown: 0x" \o Hex(sync))>>
        \o (IF prot = <<>> THEN <<>>
            ELSE <<DStr("PageProtection", prot[1][2] \o (IF 9 \in bits THEN "|PAGE_NOCACHE" ELSE ""))>>))

IoFlagBits == (0..7) \cup (21..23)
ReadWrite(op, path, d, pv, hasx, x) ==
  LET bits == Bits(Sub(d, 4, 4))
      off == Sub(d, IF pv = 8 THEN 28 ELSE 20, 8)
      len == IF hasx THEN Sub(x, 0, 4) ELSE Sub(d, 12, 4)
      prio == (IF 17 \in bits THEN 1 ELSE 0) + (IF 18 \in bits THEN 2 ELSE 0) + (IF 19 \in bits THEN 4 ELSE 0)
  IN  IF hasx /\ Len(x) < 4 THEN Bad(op)
      ELSE R(TRUE, op, path, IF op = "ReadFile" THEN "Read" ELSE "Write",
             <<DSInt("Offset", off), DInt("Length", len)>>
             \o (IF bits \cap IoFlagBits = {} THEN <<>>
                 ELSE <<DStr("I/O Flags", MaskText(bits \cap IoFlagBits, IoFlags, ", "))>>)
             \o (IF prio = 0 THEN <<>>
                 ELSE <<DStr("Priority", Lookup(IoPriority, prio, "0x" \o ToString(prio)))>>))

ControlText(c) == LET h == Hex(c) IN
  IF h \in DOMAIN ControlName THEN ControlName[h]
  ELSE "0x" \o h \o " (Device:0x" \o Hex(SubSeq(c, 3, 4)) \o " Function:"
       \o ToString((c[1] + 256 * c[2]) \div 4 % 4096
                   \* bits 2..13 of the code
                  ) \o " Method: " \o ToString(c[1] % 4) \o ")"

ReadControls == {"FSCTL_OFFLOAD_READ", "FSCTL_GET_REPARSE_POINT", "FSCTL_READ_RAW_ENCRYPTED"}
WriteControls == {"FSCTL_OFFLOAD_WRITE", "FSCTL_MOVE_FILE", "FSCTL_DELETE_REPARSE_POINT", "FSCTL_WRITE_RAW_ENCRYPTED",
                  "FSCTL_PIPE_TRANSCEIVE", "FSCTL_PIPE_INTERNAL_TRANSCEIVE"}
WriteMetadataControls ==
  {"FSCTL_SET_COMPRESSION", "FSCTL_WRITE_PROPERTY_DATA", "FSCTL_SET_OBJECT_ID", "FSCTL_DELETE_OBJECT_ID",
   "FSCTL_SET_REPARSE_POINT", "FSCTL_SET_SPARSE", "FSCTL_SET_ENCRYPTION", "FSCTL_CREATE_USN_JOURNAL",
   "FSCTL_WRITE_USN_CLOSE_RECORD", "FSCTL_EXTEND_VOLUME", "FSCTL_DELETE_USN_JOURNAL"}
ReadMetadataControls ==
  {"FSCTL_QUERY_RETRIEVAL_POINTERS", "FSCTL_GET_COMPRESSION", "FSCTL_QUERY_FAT_BPB", "FSCTL_FILESYSTEM_GET_STATISTICS",
   "FSCTL_GET_NTFS_VOLUME_DATA", "FSCTL_GET_NTFS_FILE_RECORD", "FSCTL_GET_VOLUME_BITMAP",
   "FSCTL_GET_RETRIEVAL_POINTERS", "FSCTL_IS_VOLUME_DIRTY", "FSCTL_READ_PROPERTY_DATA", "FSCTL_FIND_FILES_BY_SID",
   "FSCTL_GET_OBJECT_ID", "FSCTL_READ_USN_JOURNAL", "FSCTL_SET_OBJECT_ID_EXTENDED", "FSCTL_CREATE_OR_GET_OBJECT_ID",
   "FSCTL_READ_FILE_USN_DATA", "FSCTL_QUERY_USN_JOURNAL"}
ControlCat(c) == CASE c \in ReadControls -> "Read" [] c \in WriteControls -> "Write"
                   [] c \in WriteMetadataControls -> "Write Metadata"
                   [] c \in ReadMetadataControls -> "Read Metadata" [] OTHER -> ""

Control(op, path, b, o, d, pv) ==
  LET c == ControlText(Sub(d, IF pv = 8 THEN 28 ELSE 20, 4))
      fs == op = "FileSystemControl"
      wl == Sub(d, 8, 4)
      rl == Sub(d, 12, 4)
      head == <<DStr("Control", c)>>
      r(det) == R(TRUE, op, path, ControlCat(c), head \o det)
  IN  IF ~fs THEN r(<<>>)
      ELSE CASE c = "FSCTL_PIPE_INTERNAL_WRITE" -> r(<<DInt("Length", wl)>>)
             [] c = "FSCTL_PIPE_INTERNAL_READ"  -> r(<<DInt("Length", rl)>>)
             [] c \in {"FSCTL_PIPE_TRANSCEIVE", "FSCTL_PIPE_INTERNAL_TRANSCEIVE"} ->
                  r(<<DInt("WriteLength", wl), DInt("ReadLength", rl)>>)
             [] c \in {"FSCTL_OFFLOAD_READ", "FSCTL_OFFLOAD_WRITE"} ->
                  IF ~Avail(b, o, 16) THEN Bad(op)
                  ELSE r(<<DSInt("Offset", Sub(b, o, 8)), DInt("Length", Sub(b, o + 8, 8))>>)
             [] OTHER -> r(<<>>)

(* Offset of the name within an entry of each directory layout, and of its size. *)
NameAt == ("FileNamesInformation" :> 12) @@ ("FileDirectoryInformation" :> 64)
          @@ ("FileFullDirectoryInformation" :> 68) @@ ("FileIdFullDirectoryInformation" :> 80)
          @@ ("FileBothDirectoryInformation" :> 94) @@ ("FileIdBothDirectoryInformation" :> 104)
SizeAt(layout) == IF layout = "FileNamesInformation" THEN 8 ELSE 60

(* The chain of entries from offset c on: <<ok, names>>. *)
RECURSIVE Chain(_, _, _)
Chain(x, c, layout) ==
  IF ~Avail(x, c, NameAt[layout]) THEN [ok |-> FALSE, names |-> <<>>]
  ELSE LET next == U32(x, c)
           n == U32(x, c + SizeAt(layout))
           name == Utf16(x, c + NameAt[layout], n)
           rest == IF next = 0 \/ c + next > Len(x) THEN [ok |-> TRUE, names |-> <<>>]
                   ELSE Chain(x, c + next, layout)
       IN  IF (n % 2) = 1 \/ n > Len(x) - c - NameAt[layout] THEN [ok |-> FALSE, names |-> <<>>]
           ELSE [ok |-> rest.ok, names |-> <<name>> \o rest.names]

QueryDirectory(op, path, b, o, d, pv, hasx, x) ==
  LET fi == U16(b, o)
      filter == Text(b, o + 2, fi)
      full == IF filter = "" THEN path
              ELSE IF EndsWithBackslash(path) THEN path \o filter ELSE path \o "\\" \o filter
      cb == Sub(d, IF pv = 8 THEN 28 ELSE 20, 4)
      layout == FileInfoClass[U8(cb, 0)]
      first == IF filter = "" THEN 0 ELSE 1
      head == (IF filter = "" THEN <<>> ELSE <<DStr("Filter", filter)>>) \o <<DStr("FileInformationClass", layout)>>
      ch == Chain(x, 0, layout)
      r(det) == [R(TRUE, op, full, "Read Metadata", head \o det) EXCEPT !.base = path]
  IN  IF ~Avail(b, o, 2) THEN Bad(op)
      ELSE IF ~TextWf(b, o + 2, fi) THEN Bad(op)
      ELSE IF ~(Len(Hex(cb)) <= 2 /\ U8(cb, 0) \in DOMAIN FileInfoClass) THEN Bad(op)
      ELSE IF ~hasx \/ layout \notin DOMAIN NameAt THEN r(<<>>)
      ELSE IF ~ch.ok THEN Bad(op)
      ELSE r([i \in DOMAIN ch.names |-> DStr(ToString(first + i - 1), ch.names[i])])

NotifyChange(op, path, d, pv) ==
  R(TRUE, op, path, "Read Metadata",
    <<DStr("Filter", MaskText(Bits(Sub(d, IF pv = 8 THEN 20 ELSE 16, 4)), NotifyFlags, ", "))>>)

SetDisposition(op, path, b, o) ==
  IF ~Avail(b, o, 1) THEN Bad(op)
  ELSE IF U8(b, o) # 0 THEN R(TRUE, op, path, "Write", <<DStr("Delete", "True")>>)
  ELSE R(TRUE, op, path, "", <<DStr("Delete", "False")>>)

File(base, b, pv, hasx, x) ==
  LET op == FileOpName(base, U8(b, 0))
      dl == 5 * pv + 20
      d == Sub(b, 4, dl)
      pi == U16(b, 4 + dl)
      po == 8 + dl
      path == Text(b, po, pi)
      o == po + TextSize(pi)
  IN  IF Len(b) < po THEN Bad(base)
      ELSE IF ~TextWf(b, po, pi) THEN Bad(op)
      ELSE
      CASE op = "CreateFile" -> CreateFile(op, path, b, o, d, pv, hasx, x)
        [] op = "CreateFileMapping" -> CreateMapping(op, path, d)
        [] op \in {"ReadFile", "WriteFile"} -> ReadWrite(op, path, d, pv, hasx, x)
        [] op \in {"FileSystemControl", "DeviceIoControl"} -> Control(op, path, b, o, d, pv)
        [] op = "QueryDirectory" -> QueryDirectory(op, path, b, o, d, pv, hasx, x)
        [] op = "NotifyChangeDirectory" -> NotifyChange(op, path, d, pv)
        [] op = "SetDispositionInformationFile" -> SetDisposition(op, path, b, o)
        [] op \in {"QueryIdInformation", "QueryRemoteProtocolInformation"} -> R(TRUE, op, path, "Read Metadata", <<>>)
        [] OTHER -> R(TRUE, op, path, "", <<>>)

(***************************************************************************)
(* The event's own vocabulary, and the whole decoding.                     *)
(***************************************************************************)
OpTable(class) == CASE class = "Process" -> ProcessOp [] class = "Registry" -> RegistryOp
                    [] class = "File_System" -> FileOp [] class = "Profiling" -> ProfilingOp
                    [] class = "Network" -> NetworkOp
KnownOp(class, code) == class \in {"Process", "Registry", "File_System", "Profiling", "Network"}
                        /\ code \in DOMAIN OpTable(class)

Detail(class, code, b, pv, hasx, x, tid, hosts, ports) ==
  LET op == OpTable(class)[code] IN
  CASE class = "Process"     -> ProcessEvent(op, b, pv, tid)
    [] class = "Registry"    -> Registry(op, b, hasx, x)
    [] class = "File_System" -> File(op, b, pv, hasx, x)
    [] class = "Profiling"   -> R(TRUE, op, "", "", <<>>)
    [] class = "Network"     -> Network(op, b, hosts, ports)
=============================================================================
