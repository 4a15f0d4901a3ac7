------------------------------ MODULE PmlFormat ------------------------------
(* The PML container: what a file, given as bytes, contains.                   *)
(*                                                                             *)
(* A file is a sequence of segments [hi, lo, b]: bytes b at file offset        *)
(* hi * 2^24 + lo.  Everything outside the segments is unspecified.  Each      *)
(* structure (header, table with its elements, event record, extra block) is   *)
(* read from the one segment it starts in.                                     *)
EXTENDS EventDetail

LIMB == 16777216

(* File offsets as <<hi, lo>>. *)
Off64(b, o) == [hi |-> IF \E i \in 6..7 : b[o + i + 1] # 0 THEN HUGE
                       ELSE b[o + 4] + 256 * b[o + 5] + (IF b[o + 6] >= 128 THEN HUGE ELSE 65536 * b[o + 6]),
                lo |-> b[o + 1] + 256 * b[o + 2] + 65536 * b[o + 3]]
Off32(b, o) == [hi |-> b[o + 4], lo |-> b[o + 1] + 256 * b[o + 2] + 65536 * b[o + 3]]
OffAdd(x, y) == LET l == x.lo + y.lo IN [hi |-> x.hi + y.hi + l \div LIMB, lo |-> l % LIMB]

(* Where an offset lies: segment bytes and position in them. *)
Dist(off, s) == IF off.hi < s.hi \/ off.hi - s.hi > 16 THEN -1 ELSE (off.hi - s.hi) * LIMB + off.lo - s.lo
Locate(segs, off) ==
  LET is == {i \in DOMAIN segs : Dist(off, segs[i]) >= 0 /\ Dist(off, segs[i]) <= Len(segs[i].b)}
      best == CHOOSE i \in is : \A j \in is : Dist(off, segs[i]) <= Dist(off, segs[j])
  IN  IF is = {} THEN [ok |-> FALSE, b |-> <<>>, o |-> 0]
      ELSE [ok |-> TRUE, b |-> segs[best].b, o |-> Dist(off, segs[best])]

(***************************************************************************)
(* Header                                                                  *)
(***************************************************************************)
HeaderSize == 936
HdrSignature == <<80, 77, 76, 95>>
OffsetFields == {576, 584, 592, 600, 608}   \* events, index, processes, strings, icons
(* What is wrong with a header; nothing means the file can be opened. *)
HeaderFaults(h) ==
  IF Len(h) < HeaderSize
  THEN {"truncated"} \cup (IF Len(h) < 4 \/ SubSeq(h, 1, Min2(4, Len(h))) # HdrSignature THEN {"signature"} ELSE {})
                     \cup (IF Len(h) >= 8 /\ SubSeq(h, 5, Min2(8, Len(h))) # <<9, 0, 0, 0>> THEN {"version"} ELSE {})
  ELSE (IF SubSeq(h, 1, 4) # HdrSignature THEN {"signature"} ELSE {})
       \cup (IF Sub(h, 4, 4) # <<9, 0, 0, 0>> THEN {"version"} ELSE {})
       \cup (IF \E o \in OffsetFields : IsZero(Sub(h, o, 8)) THEN {"unclosed"} ELSE {})
       \cup (IF Sub(h, 920, 8) # LE(HeaderSize, 8) THEN {"headersize"} ELSE {})
       \cup (IF IsZero(Sub(h, 928, 8)) THEN {"nohosts"} ELSE {})

(* The exceptions with which opening may fail; any one of the faults present   *)
(* may be the one reported.  A header cut short may be reported in any way, but *)
(* a file that does not even begin with the signature is not a log.            *)
Refusals(faults) ==
  IF "truncated" \in faults /\ "signature" \notin faults THEN {"any"}
  ELSE (IF faults \cap {"signature", "unclosed", "headersize", "nohosts"} # {} THEN {"PMLError"} ELSE {})
       \cup (IF "version" \in faults THEN {"NotImplementedError"} ELSE {})

WindowsName(major, minor) ==
  CASE major = 6 /\ minor = 0 -> "Windows Vista" [] major = 6 /\ minor = 1 -> "Windows 7"
    [] major = 6 /\ minor = 2 -> "Windows 8" [] major = 6 /\ minor = 3 -> "Windows 8.1"
    [] major = 10 /\ minor = 0 -> "Windows 10" [] OTHER -> ""

(* Hundredths of a gigabyte, as text. *)
Hundredths(kb) == LET d == DivMod(kb, 100)
                      w == Dec(d.q)
                  IN  w \o "." \o (CASE d.r % 10 = 0 -> ToString(d.r \div 10) [] OTHER -> Pad(d.r, 2)) \o " GB"
RamChoices(ram) ==
  LET k == DivMod(SubSeq(Mul(ram, 100), 4, 9), 64).q          \* ram * 100 / 2^30
  IN  {Hundredths(k)} \cup (IF IsZero(k) THEN {} ELSE {Hundredths(Minus(k, LE(1, Len(k))))})

System(h) ==
  LET win == WindowsName(U32(h, 628), U32(h, 632))
      sp == Utf16(h, 644, 256)
  IN  [wf |-> win # "",
       computer |-> Utf16(h, 12, 32),
       os |-> win \o (IF sp = "" THEN "" ELSE ", " \o sp) \o " (build " \o Dec(Sub(h, 636, 4)) \o "."
              \o Dec(Sub(h, 640, 4)) \o ")",
       root |-> Utf16(h, 44, 520),
       cpus |-> Hex(Sub(h, 908, 4)),
       ram |-> RamChoices(Sub(h, 912, 8)),
       type |-> IF IsZero(Sub(h, 8, 4)) THEN "32-bit" ELSE "64-bit"]

(***************************************************************************)
(* Tables                                                                  *)
(***************************************************************************)
StringTable(p) ==
  LET n == U32(p.b, p.o)
      at(i) == p.o + U32(p.b, p.o + 4 * i)
      ok(i) == /\ U32(p.b, p.o + 4 * i) < HUGE /\ Avail(p.b, at(i), 4)
               /\ U32(p.b, at(i)) < HUGE /\ (U32(p.b, at(i)) % 2) = 0
               /\ Avail(p.b, at(i) + 4, U32(p.b, at(i)))
  IN  IF ~p.ok \/ ~Avail(p.b, p.o, 4) \/ n = HUGE \/ ~Avail(p.b, p.o + 4, 4 * n) THEN [wf |-> FALSE, s |-> <<>>]
      ELSE IF \E i \in 1..n : ~ok(i) THEN [wf |-> FALSE, s |-> <<>>]
      ELSE [wf |-> TRUE, s |-> TLCEval([i \in 1..n |-> Utf16(p.b, at(i) + 4, U32(p.b, at(i)))])]

Process(b, o, pv, strs) ==
  LET str(k) == strs[U32(b, o + k) + 1]
      hex(k, n) == Hex(Sub(b, o + k, n))
      nm == U32(b, o + 96 + pv)
      msize == 2 * pv + 48
      mo(i) == o + 100 + pv + (i - 1) * msize
      mstr(i, k) == strs[U32(b, mo(i) + 2 * pv + k) + 1]
      strok(a) == U32(b, a) < Len(strs)
      mod(i) == <<Hex(Sub(b, mo(i) + pv, pv)), Hex(Sub(b, mo(i) + 2 * pv, 4)), mstr(i, 4), mstr(i, 8), mstr(i, 12),
                  mstr(i, 16), Hex(Sub(b, mo(i) + 2 * pv + 20, 4))>>
      wf == /\ Avail(b, o, 100 + pv) /\ nm < 1000000 /\ Avail(b, o + 100 + pv, nm * msize)
            /\ \A k \in {56, 60, 64, 68, 72, 76, 80, 84} : strok(o + k)
            /\ \A i \in 1..nm : \A k \in {4, 8, 12, 16} : strok(mo(i) + 2 * pv + k)
  IN  IF ~wf THEN [wf |-> FALSE]
      ELSE [wf |-> TRUE, idx |-> hex(0, 4),
            f |-> <<hex(4, 4), hex(8, 4), hex(16, 8), hex(24, 4), hex(48, 4),
                    IF IsZero(Sub(b, o + 52, 4)) THEN "0" ELSE "1",
                    str(56), str(60), str(64), str(68), str(72), str(76), str(80), str(84),
                    hex(32, 8), hex(40, 8)>>,
            mods |-> [i \in 1..nm |-> mod(i)],
            pid |-> Sub(b, o + 4, 4), ppid |-> Sub(b, o + 8, 4), auth |-> Sub(b, o + 16, 8),
            session |-> Sub(b, o + 24, 4), virt |-> Sub(b, o + 48, 4)]

ProcessTable(p, pv, strs) ==
  LET n == U32(p.b, p.o)
      rel(i) == U32(p.b, p.o + 4 + 4 * n + 4 * (i - 1))
      procs == TLCEval([i \in 1..n |-> IF rel(i) = HUGE THEN [wf |-> FALSE] ELSE Process(p.b, p.o + rel(i), pv, strs)])
  IN  IF ~p.ok \/ ~Avail(p.b, p.o, 4) \/ n = HUGE \/ ~Avail(p.b, p.o + 4, 8 * n) THEN [wf |-> FALSE, p |-> <<>>]
      ELSE LET t == procs IN
           IF \E i \in 1..n : ~t[i].wf THEN [wf |-> FALSE, p |-> <<>>]
           ELSE IF Cardinality({t[i].idx : i \in 1..n}) # n THEN [wf |-> FALSE, p |-> <<>>]
           ELSE [wf |-> TRUE, p |-> t]

RECURSIVE Hosts(_, _, _)
Hosts(b, o, n) ==       \* <<ok, entries, next offset>>
  IF n = 0 THEN [ok |-> TRUE, e |-> <<>>, o |-> o]
  ELSE IF ~Avail(b, o, 20) \/ (U32(b, o + 16) % 2) = 1 \/ ~Avail(b, o + 20, U32(b, o + 16))
       THEN [ok |-> FALSE, e |-> <<>>, o |-> o]
  ELSE LET l == U32(b, o + 16)
           r == Hosts(b, o + 20 + l, n - 1)
       IN  [r EXCEPT !.e = <<[ip |-> Sub(b, o, 16), name |-> Utf16(b, o + 20, l)]>> \o @]
RECURSIVE Ports(_, _, _)
Ports(b, o, n) ==
  IF n = 0 THEN [ok |-> TRUE, e |-> <<>>, o |-> o]
  ELSE IF ~Avail(b, o, 8) \/ (U32(b, o + 4) % 2) = 1 \/ ~Avail(b, o + 8, U32(b, o + 4))
       THEN [ok |-> FALSE, e |-> <<>>, o |-> o]
  ELSE LET l == U32(b, o + 4)
           r == Ports(b, o + 8 + l, n - 1)
       IN  [r EXCEPT !.e = <<[port |-> U16(b, o), tcp |-> U16(b, o + 2) # 0, name |-> Utf16(b, o + 8, l)]>> \o @]
NetTables(p) ==
  IF ~p.ok \/ ~Avail(p.b, p.o, 4) THEN [wf |-> FALSE, hosts |-> <<>>, ports |-> <<>>]
  ELSE IF U32(p.b, p.o) > 100000 THEN [wf |-> FALSE, hosts |-> <<>>, ports |-> <<>>]
  ELSE LET h == Hosts(p.b, p.o + 4, U32(p.b, p.o)) IN
       IF ~h.ok \/ ~Avail(p.b, h.o, 4) THEN [wf |-> FALSE, hosts |-> <<>>, ports |-> <<>>]
       ELSE IF U32(p.b, h.o) > 100000 THEN [wf |-> FALSE, hosts |-> <<>>, ports |-> <<>>]
       ELSE LET q == Ports(p.b, h.o + 4, U32(p.b, h.o))
            IN  [wf |-> q.ok, hosts |-> h.e, ports |-> q.e]

(***************************************************************************)
(* Events                                                                  *)
(***************************************************************************)
BadEvent == [wf |-> FALSE, lim |-> 0, orphan |-> FALSE]
Orphan == [BadEvent EXCEPT !.orphan = TRUE]      \* its process is not in the table

Event(segs, off, pv, procs, hosts, ports) ==
  LET p == Locate(segs, off)
      b == p.b
      o == p.o
      depth == U16(b, o + 40)
      dsize == U32(b, o + 44)
      xoff == Sub(b, o + 48, 4)
      so == o + 52                     \* stack
      do == so + depth * pv            \* details
      hasx == ~IsZero(xoff)
      xp == Locate(segs, OffAdd(off, Off32(b, o + 48)))
      xsize == U16(xp.b, xp.o)
      class == IF U32(b, o + 8) \in DOMAIN EventClassName THEN EventClassName[U32(b, o + 8)] ELSE "Unknown"
      code == U16(b, o + 12)
      pidx == Hex(Sub(b, o, 4))
      pis == {i \in DOMAIN procs : procs[i].idx = pidx}
      tid == Sub(b, o + 4, 4)
  IN
  IF ~p.ok \/ ~Avail(b, o, 52) THEN BadEvent
  ELSE IF dsize = HUGE \/ ~Avail(b, so, depth * pv) \/ ~KnownOp(class, code) THEN BadEvent
  ELSE IF pis = {} THEN Orphan
  ELSE IF ~Avail(b, do, dsize) THEN BadEvent
  ELSE IF hasx /\ (~xp.ok \/ ~Avail(xp.b, xp.o, 2) \/ (U32(b, o + 48) < HUGE /\ U32(b, o + 48) < do - o + dsize)) THEN BadEvent
  ELSE IF hasx /\ ~Avail(xp.b, xp.o + 2, xsize) THEN BadEvent
  ELSE LET x == IF hasx THEN Sub(xp.b, xp.o + 2, xsize) ELSE <<>>
           d == Detail(class, code, Sub(b, do, dsize), pv, hasx, x, tid, hosts, ports)
       IN  IF ~d.wf THEN BadEvent
           ELSE [wf |-> TRUE, proc |-> CHOOSE i \in pis : TRUE,
                 tid |-> Hex(tid), tidb |-> tid, class |-> class, op |-> d.op,
                 dur |-> Hex(Sub(b, o + 20, 8)), durb |-> Sub(b, o + 20, 8),
                 date |-> Hex(Sub(b, o + 28, 8)), dateb |-> Sub(b, o + 28, 8),
                 res |-> Hex(Sub(b, o + 36, 4)), resb |-> Sub(b, o + 36, 4),
                 stack |-> [i \in 1..depth |-> Hex(Sub(b, so + pv * (i - 1), pv))],
                 path |-> d.path, base |-> d.base, cat |-> d.cat, det |-> d.det]

(***************************************************************************)
(* A whole file.  status: "refused" (with the permitted exceptions), "open",   *)
(* or "unspecified" (a healthy header over damaged tables).                    *)
(***************************************************************************)
NoFile == [status |-> "unspecified", refusals |-> {}, n |-> 0, events |-> <<>>, procs |-> <<>>,
           sys |-> [wf |-> FALSE]]

ParseFile(segs) ==
  LET hp == Locate(segs, [hi |-> 0, lo |-> 0])
      h == IF hp.ok THEN hp.b ELSE <<>>
      faults == HeaderFaults(h)
      pv == IF IsZero(Sub(h, 8, 4)) THEN 4 ELSE 8
      n == U32(h, 564)
      ip == Locate(segs, Off64(h, 584))
      st == StringTable(Locate(segs, Off64(h, 600)))
      pt == ProcessTable(Locate(segs, Off64(h, 592)), pv, st.s)
      nt == NetTables(Locate(segs, Off64(h, 928)))
  IN
  IF faults # {} THEN [NoFile EXCEPT !.status = "refused", !.refusals = Refusals(faults)]
  ELSE IF n > 1000000 \/ ~ip.ok THEN NoFile
  ELSE IF ~Avail(ip.b, ip.o, 5 * n) \/ ~st.wf THEN NoFile
  ELSE IF ~pt.wf \/ ~nt.wf THEN NoFile
  ELSE [status |-> "open", refusals |-> {}, n |-> n,
        events |-> TLCEval([i \in 1..n |-> Event(segs, Off32(ip.b, ip.o + 5 * (i - 1)), pv, pt.p, nt.hosts, nt.ports)]),
        procs |-> pt.p, sys |-> System(h)]
=============================================================================
