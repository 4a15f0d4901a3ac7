------------------------------ MODULE PmlWriter ------------------------------
(* The writer's side of PmlFormat: a capture as it comes to lie on disk, step  *)
(* by step, so that the file after every step is the file a crash leaves.      *)
(*                                                                             *)
(*   con    what has been captured: processes, events (in index order)         *)
(*   body   the bytes behind the header                                        *)
(*   where  the tables written so far and their offsets                        *)
(*   done   the header fields filled in                                        *)
EXTENDS PmlFormat, Wires

VARIABLES lay, con, body, where, done
wvars == <<lay, con, body, where, done>>

(* Everything a reader must not depend on. *)
Layout == [pv : PVs, fill : {0, 170}, gap : {0, 3}, deferred : BOOLEAN, reversed : BOOLEAN, shared : BOOLEAN]

Gap(n) == [i \in 1..n |-> lay.fill]
Space  == Gap(lay.gap)
PW(v)  == LE(v, lay.pv)

(***************************************************************************)
(* What can be captured.                                                    *)
(***************************************************************************)
Strings == <<<<>>, K1, Emoji, CRoot, K1, <<97, 98, 99>>>>
StrIx(k, i) == (2 * k + i) % 6
ProcIx  == <<<<5, 0, 0, 0>>, <<0, 0, 0, 0>>, <<255, 255, 255, 255>>>>
Value(k, f, n) == Fill(n, 16 * k + 7 * f)
Virt(k) == IF k = 2 THEN <<0, 1, 0, 0>> ELSE Zeros(4)
Is64(k) == IF k = 3 THEN <<0, 0, 0, 128>> ELSE IF k = 1 THEN <<1, 0, 0, 0>> ELSE Zeros(4)
NMods(k) == k - 1
ModBytes(k, m) == Gap(lay.pv) \o Value(k, 20 + m, lay.pv) \o Value(k, 30 + m, 4) \o Flat([i \in 1..4 |-> W32(StrIx(k, i + m))]) \o Value(k, 40 + m, 4) \o Gap(24)
ProcBytes(k) ==
  ProcIx[k] \o Value(k, 1, 4) \o Value(k, 2, 4) \o Gap(4) \o Value(k, 3, 8) \o Value(k, 4, 4) \o Gap(4) \o Value(k, 5, 8) \o Value(k, 6, 8)
  \o Virt(k) \o Is64(k) \o Flat([i \in 1..8 |-> W32(StrIx(k, i))]) \o Gap(8) \o Gap(lay.pv) \o W32(NMods(k)) \o Flat([m \in 1..NMods(k) |-> ModBytes(k, m)])
StrSaid(k, i) == Say(Strings[StrIx(k, i) + 1])
ProcMeans(k) ==
  [f |-> <<Hex(Value(k, 1, 4)), Hex(Value(k, 2, 4)), Hex(Value(k, 3, 8)), Hex(Value(k, 4, 4)), Hex(Virt(k)), IF k = 2 THEN "0" ELSE "1",
           StrSaid(k, 1), StrSaid(k, 2), StrSaid(k, 3), StrSaid(k, 4), StrSaid(k, 5), StrSaid(k, 6), StrSaid(k, 7), StrSaid(k, 8),
           Hex(Value(k, 5, 8)), Hex(Value(k, 6, 8))>>,
   mods |-> [m \in 1..NMods(k) |-> <<Hex(Value(k, 20 + m, lay.pv)), Hex(Value(k, 30 + m, 4)), StrSaid(k, 1 + m), StrSaid(k, 2 + m), StrSaid(k, 3 + m), StrSaid(k, 4 + m),
                                     Hex(Value(k, 40 + m, 4))>>]]

(* Three kinds of events: a read with an extra block, a process creation       *)
(* without one, and one over the network tables.                               *)
EvWire(t) == CASE t = 1 -> RW("ReadFile", lay.pv, PathF, Zeros(4), <<254, 255, 255, 255, 255, 255, 255, 255>>, Fill(4, 9), Fill(4, 77), <<>>, 0)
               [] t = 2 -> Created("Process_Create", 1, 2, Txt(Emoji, FALSE), Key)
               [] t = 3 -> NetWire(2, 5, CHOOSE a \in Addrs : a.v4 = "be", A1, CHOOSE p \in PortsUsed : p.p = 80, P1, KV0)
Frames(t) == [i \in 1..(t - 1) |-> Fill(lay.pv, 90 * t + i)]
EvHead(t, k, xoff) ==
  LET w == EvWire(t) IN
  ProcIx[k] \o Fill(4, 40 + k) \o W32(w.c) \o W16(w.op) \o Gap(2) \o Gap(4) \o Fill(8, 50 + k + t) \o Fill(8, 60 + t) \o Fill(4, 70 + k) \o W16(t - 1) \o Gap(2)
  \o W32(Len(w.b)) \o W32(xoff)
EvMeans(e, pos) ==
  LET w == EvWire(e.t)
      fs == Frames(e.t)
  IN  [wf |-> TRUE, proc |-> pos, tid |-> Hex(Fill(4, 40 + e.k)), class |-> EventClassName[w.c], op |-> w.m.op, dur |-> Hex(Fill(8, 50 + e.k + e.t)),
       date |-> Hex(Fill(8, 60 + e.t)), res |-> Hex(Fill(4, 70 + e.k)), stack |-> [i \in DOMAIN fs |-> Hex(fs[i])], path |-> w.m.path, cat |-> w.m.cat, det |-> w.m.det]

(***************************************************************************)
(* The tables                                                               *)
(***************************************************************************)
RECURSIVE Placed(_, _, _)
Placed(pieces, at, k) ==        \* offsets of the pieces when written one after the other from at
  IF k > Len(pieces) THEN <<>> ELSE <<at + Len(Space)>> \o Placed(pieces, at + Len(Space) + Len(pieces[k]), k + 1)
Spaced(pieces) == Flat([i \in DOMAIN pieces |-> Space \o pieces[i]])
Turn(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]

ProcTable ==
  LET n == Len(con.procs)
      order == IF lay.reversed THEN Turn(con.procs) ELSE con.procs
      pieces == [i \in DOMAIN order |-> ProcBytes(order[i])]
      offs == Placed(pieces, 4 + 8 * n, 1)
      of(i) == offs[IF lay.reversed THEN n + 1 - i ELSE i]
  IN  W32(n) \o Flat([i \in 1..n |-> ProcIx[con.procs[i]]]) \o Flat([i \in 1..n |-> W32(of(i))]) \o Spaced(pieces)
StrTable ==
  LET n == Len(Strings)
      piece(i) == W32(2 * Len(Strings[i]) + 2) \o Zt(Strings[i])
      kept == IF lay.shared THEN <<6, 4, 3, 2, 1>> ELSE IF lay.reversed THEN <<6, 5, 4, 3, 2, 1>> ELSE <<1, 2, 3, 4, 5, 6>>
      pieces == [i \in DOMAIN kept |-> piece(kept[i])]
      offs == Placed(pieces, 4 + 4 * n, 1)
      of(i) == offs[CHOOSE j \in DOMAIN kept : Strings[kept[j]] = Strings[i] /\ (lay.shared \/ kept[j] = i)]
  IN  W32(n) \o Flat([i \in 1..n |-> W32(of(i))]) \o Spaced(pieces)
HostTable ==
  W32(Len(NetHosts)) \o Flat([i \in DOMAIN NetHosts |-> NetHosts[i].ip \o W32(2 * Len(NetHosts[i].u)) \o Wide(NetHosts[i].u)])
  \o W32(Len(NetPorts)) \o Flat([i \in DOMAIN NetPorts |-> W16(NetPorts[i].port) \o W16(NetPorts[i].tcp) \o W32(2 * Len(NetPorts[i].u) + 2) \o Zt(NetPorts[i].u)])
IndexTable == Flat([i \in DOMAIN con.events |-> W32(con.events[i].at) \o <<IF lay.fill = 0 THEN 0 ELSE i>>])

Tables == {"index", "processes", "strings", "icons", "hosts"}
Table(t) == CASE t = "index" -> IndexTable [] t = "processes" -> ProcTable [] t = "strings" -> StrTable
              [] t = "icons" -> W32(0) [] t = "hosts" -> HostTable

(***************************************************************************)
(* The header: fields not yet filled in are zero.                           *)
(***************************************************************************)
Fields == {"count", "events", "index", "processes", "strings", "icons", "headersize", "hosts"}
Offset(f) == IF f \in done THEN LE(where[f], 8) ELSE Zeros(8)
FixedText(u, n) == LET w == Wide(u) IN IF Len(w) = n THEN w ELSE w \o <<0, 0>> \o Gap(n - 2 - Len(w))
Header ==
  HdrSignature \o W32(9) \o W32(IF lay.pv = 8 THEN 256 ELSE 0) \o FixedText(Emoji, 32) \o FixedText(CRoot, 520)
  \o (IF "count" \in done THEN W32(Len(con.events)) ELSE Zeros(4)) \o Gap(8)
  \o Offset("events") \o Offset("index") \o Offset("processes") \o Offset("strings") \o Offset("icons")
  \o Gap(12) \o W32(6) \o W32(3) \o W32(9600) \o W32(17) \o FixedText(IF lay.shared THEN K1 ELSE <<>>, 256) \o Gap(8) \o W32(6) \o <<0, 0, 0, 128, 1, 0, 0, 0>>
  \o (IF "headersize" \in done THEN LE(HeaderSize, 8) ELSE Zeros(8)) \o Offset("hosts")
OnDisk == Header \o body

(***************************************************************************)
(* Steps                                                                    *)
(***************************************************************************)
Nothing == [procs |-> <<>>, events |-> <<>>, later |-> <<>>]
Start(l) == lay' = l /\ con' = Nothing /\ body' = <<>> /\ where' = [t \in {} |-> 0] /\ done' = {}

Capturing == DOMAIN where \subseteq {"events"}
End == HeaderSize + Len(body)

Discover(k) == /\ Capturing /\ \A i \in DOMAIN con.procs : con.procs[i] # k
               /\ con' = [con EXCEPT !.procs = Append(@, k)] /\ UNCHANGED <<lay, body, where, done>>

Insert(s, at, x) == SubSeq(s, 1, at - 1) \o <<x>> \o SubSeq(s, at, Len(s))
(* An event of process k becomes number at of the index. *)
Log(k, t, at) ==
  /\ Capturing /\ k \in {con.procs[i] : i \in DOMAIN con.procs}
  /\ LET w == EvWire(t)
         frames == Flat(Frames(t))
         size == 52 + Len(frames) + Len(w.b)
         start == Len(body) + Len(Space)
         now == w.x.has /\ ~lay.deferred
         block == W16(Len(w.x.b)) \o w.x.b
         base == IF "events" \in DOMAIN where THEN where["events"] ELSE HeaderSize + start
     IN  /\ body' = body \o Space \o EvHead(t, k, IF now THEN size + lay.gap ELSE 0) \o frames \o w.b \o (IF now THEN Space \o block ELSE <<>>)
         /\ where' = [x \in {"events"} |-> base]
         /\ con' = [con EXCEPT !.events = Insert(@, at, [k |-> k, t |-> t, at |-> HeaderSize + start]),
                               !.later = IF w.x.has /\ lay.deferred THEN Append(@, [at |-> start, b |-> block]) ELSE @]
  /\ UNCHANGED <<lay, done>>

(* The end of the events: blocks that were put off are written, and referred to. *)
RECURSIVE PutOff(_, _)
PutOff(b, l) == IF l = <<>> THEN b
             ELSE LET c == b \o Space
                  IN  PutOff(Patch(c, l[1].at + 48, W32(Len(c) - l[1].at)) \o l[1].b, Tail(l))
Finish == /\ Capturing /\ "end" \notin DOMAIN where
          /\ body' = PutOff(body, con.later) /\ con' = [con EXCEPT !.later = <<>>]
          /\ where' = [x \in {"events", "end"} |-> IF x = "events" /\ "events" \in DOMAIN where THEN where["events"] ELSE HeaderSize]
          /\ UNCHANGED <<lay, done>>
Write(t) == /\ "end" \in DOMAIN where /\ t \in Tables \ DOMAIN where
            /\ body' = body \o Space \o Table(t)
            /\ where' = [x \in DOMAIN where \cup {t} |-> IF x = t THEN End + Len(Space) ELSE where[x]]
            /\ UNCHANGED <<lay, con, done>>
FillIn(f) == /\ Tables \subseteq DOMAIN where /\ f \in Fields \ done
             /\ done' = done \cup {f} /\ UNCHANGED <<lay, con, body, where>>

(***************************************************************************)
(* What a reader makes of it.                                               *)
(***************************************************************************)
Closed == (Fields \ {"count"}) \subseteq done
Read   == ParseFile(<<[hi |-> 0, lo |-> 0, b |-> OnDisk]>>)

Openable(r) == r.status = (IF Closed THEN "open" ELSE "refused") /\ (~Closed => r.refusals = {"PMLError"})
Shown(e) == [wf |-> e.wf, proc |-> e.proc, tid |-> e.tid, class |-> e.class, op |-> e.op, dur |-> e.dur, date |-> e.date, res |-> e.res, stack |-> e.stack,
             path |-> e.path, cat |-> e.cat, det |-> e.det]
Position(k) == CHOOSE i \in DOMAIN con.procs : con.procs[i] = k
Faithful(r) ==
  (Closed /\ "count" \in done) =>
     /\ r.n = Len(con.events)
     /\ \A i \in 1..r.n : r.events[i].wf /\ Shown(r.events[i]) = EvMeans(con.events[i], Position(con.events[i].k))
     /\ Len(r.procs) = Len(con.procs)
     /\ \A i \in DOMAIN con.procs : r.procs[i].f = ProcMeans(con.procs[i]).f /\ r.procs[i].mods = ProcMeans(con.procs[i]).mods
     /\ r.sys = [wf |-> TRUE, computer |-> Say(Emoji), os |-> "Windows 8.1" \o (IF lay.shared THEN ", k" ELSE "") \o " (build 9600.17)", root |-> "C:\\",
                 cpus |-> "6", ram |-> {"6.0 GB", "5.99 GB"}, type |-> IF lay.pv = 8 THEN "64-bit" ELSE "32-bit"]
(* A header that is cut anywhere never opens, and says so. *)
Cuts == {1, 3, 4, 8, 564, 583, 591, 624, 919, 927, 935}
NeverShort == Closed => \A n \in Cuts : ParseFile(<<[hi |-> 0, lo |-> 0, b |-> SubSeq(OnDisk, 1, n)]>>).status = "refused"
=============================================================================
