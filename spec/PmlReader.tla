------------------------------ MODULE PmlReader ------------------------------
(* Reading sessions: any number of readers over a library of files.            *)
(*                                                                             *)
(*   lib   the files: status, number of events and, per event, whether its     *)
(*         record is well-formed                                               *)
(*   rd    the open readers: file, options, cursor (events already iterated)   *)
(*   out   the response the last call must give, in abstract form              *)
(*                                                                             *)
(* A reader is a sequence of n events with one cursor.  Only Next and Drain    *)
(* move the cursor; nothing else a caller does has any effect on what a later  *)
(* call returns.                                                               *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES lib, rd, out
vars == <<lib, rd, out>>

NONE == 999999999                  \* an omitted slice part

None         == [k |-> "none"]
Opened       == [k |-> "opened"]
Raise(names) == [k |-> "raise", names |-> names]
Free         == [k |-> "free"]                         \* not specified
Count(n)     == [k |-> "count", n |-> n]
Stop         == [k |-> "stop"]
(* Event i of file f as delivered under the given options. *)
One(f, i, o)   == [k |-> "event", f |-> f, i |-> i, o |-> o]
Many(f, is, o) == [k |-> "events", f |-> f, is |-> is, o |-> o]
ProcList(f)  == [k |-> "procs", f |-> f]
SysInfo(f)   == [k |-> "sys", f |-> f]

N(f)  == lib[f].n
Ok(f, i) == lib[f].events[i].wf
AllOk(f, is) == \A j \in DOMAIN is : Ok(f, is[j])
(* A record that cannot be decoded makes the call raise or deliver something,  *)
(* but never a list of another length.                                         *)
Deliver(f, i, o)      == IF Ok(f, i) THEN One(f, i, o) ELSE [k |-> "freeone", f |-> f, i |-> i, o |-> o]
DeliverAll(f, is, o)  == IF AllOk(f, is) THEN Many(f, is, o) ELSE [k |-> "freemany", f |-> f, is |-> is, o |-> o]

(***************************************************************************)
(* Python's indexing and slicing of a sequence of length n, 1-based result. *)
(***************************************************************************)
InRangeIdx(i, n) == -n <= i /\ i < n
Norm(i, n) == IF i < 0 THEN i + n + 1 ELSE i + 1

Clamp(v, lo, hi, n) == LET w == IF v < 0 THEN v + n ELSE v IN IF w < lo THEN lo ELSE IF w > hi THEN hi ELSE w
SliceStart(a, c, n) == IF c > 0 THEN (IF a = NONE THEN 0 ELSE Clamp(a, 0, n, n))
                       ELSE (IF a = NONE THEN n - 1 ELSE Clamp(a, -1, n - 1, n))
SliceStop(b, c, n)  == IF c > 0 THEN (IF b = NONE THEN n ELSE Clamp(b, 0, n, n))
                       ELSE (IF b = NONE THEN -1 ELSE Clamp(b, -1, n - 1, n))
SliceSeq(a, b, c0, n) ==
  LET c == IF c0 = NONE THEN 1 ELSE c0
      s == SliceStart(a, c, n)
      e == SliceStop(b, c, n)
      len == IF c > 0 THEN (IF e <= s THEN 0 ELSE (e - s + c - 1) \div c)
             ELSE (IF s <= e THEN 0 ELSE (s - e - c - 1) \div (-c))
  IN  [j \in 1..len |-> s + (j - 1) * c + 1]

From(k, n) == [j \in 1..(n - k) |-> k + j]

(***************************************************************************)
(* Calls                                                                   *)
(***************************************************************************)
Init == lib = <<>> /\ rd = <<>> /\ out = None

Library(files) == lib' = files /\ rd' = <<>> /\ out' = None

Open(f, o) ==
  /\ UNCHANGED lib
  /\ CASE lib[f].status = "open"    -> /\ rd' = Append(rd, [f |-> f, o |-> o, cur |-> 0, live |-> TRUE])
                                       /\ out' = Opened
       [] lib[f].status = "refused" -> /\ rd' = Append(rd, [f |-> f, o |-> o, cur |-> 0, live |-> FALSE])
                                       /\ out' = Raise(lib[f].refusals)
       [] OTHER                     -> /\ rd' = Append(rd, [f |-> f, o |-> o, cur |-> 0, live |-> FALSE])
                                       /\ out' = Free

Live(r) == r \in DOMAIN rd /\ rd[r].live

Length(r) == /\ Live(r) /\ UNCHANGED <<lib, rd>> /\ out' = Count(N(rd[r].f))

Next1(r) ==
  LET c == rd[r].cur
      f == rd[r].f
  IN  /\ Live(r) /\ UNCHANGED lib
      /\ IF c = N(f) THEN rd' = rd /\ out' = Stop
         ELSE /\ rd' = [rd EXCEPT ![r].cur = c + 1]
              /\ out' = Deliver(f, c + 1, rd[r].o)

(* The stream fails while the next event is read: the failure reaches the      *)
(* caller and iteration goes on behind that event.                             *)
NextFault(r) ==
  /\ Live(r) /\ UNCHANGED lib
  /\ IF rd[r].cur < N(rd[r].f) THEN rd' = [rd EXCEPT ![r].cur = @ + 1] /\ out' = Raise({"Injected"})
     ELSE UNCHANGED rd /\ out' = Free

Index(r, i) ==
  /\ Live(r) /\ UNCHANGED <<lib, rd>>
  /\ out' = IF InRangeIdx(i, N(rd[r].f)) THEN Deliver(rd[r].f, Norm(i, N(rd[r].f)), rd[r].o)
            ELSE Raise({"IndexError"})
IndexFault(r, i) ==
  /\ Live(r) /\ UNCHANGED <<lib, rd>>
  /\ out' = IF InRangeIdx(i, N(rd[r].f)) THEN Raise({"Injected"}) ELSE Free
BadIndex(r) == Live(r) /\ UNCHANGED <<lib, rd>> /\ out' = Raise({"TypeError"})

Slice(r, a, b, c) ==
  /\ Live(r) /\ UNCHANGED <<lib, rd>>
  /\ out' = IF c = 0 THEN Raise({"ValueError"})
            ELSE DeliverAll(rd[r].f, SliceSeq(a, b, c, N(rd[r].f)), rd[r].o)

(* list(reader): everything not yet iterated. *)
Drain(r) ==
  LET f == rd[r].f
      is == From(rd[r].cur, N(f))
      firstbad == CHOOSE i \in {is[j] : j \in DOMAIN is} :
                     ~Ok(f, i) /\ \A j \in DOMAIN is : is[j] < i => Ok(f, is[j])
  IN  /\ Live(r) /\ UNCHANGED lib
      /\ IF AllOk(f, is) THEN rd' = [rd EXCEPT ![r].cur = N(f)] /\ out' = Many(f, is, rd[r].o)
         ELSE rd' = [rd EXCEPT ![r].live = FALSE] /\ out' = DeliverAll(f, is, rd[r].o)

Reversed(r) ==
  LET n == N(rd[r].f) IN
  /\ Live(r) /\ UNCHANGED <<lib, rd>>
  /\ out' = DeliverAll(rd[r].f, [j \in 1..n |-> n + 1 - j], rd[r].o)

AllOptions == [st |-> TRUE, de |-> TRUE]
ReadAll(f) ==
  /\ UNCHANGED <<lib, rd>>
  /\ out' = CASE lib[f].status = "open"    -> DeliverAll(f, From(0, N(f)), AllOptions)
              [] lib[f].status = "refused" -> Raise(lib[f].refusals)
              [] OTHER                     -> Free

Processes(r) == Live(r) /\ UNCHANGED <<lib, rd>> /\ out' = ProcList(rd[r].f)
System1(r)   == Live(r) /\ UNCHANGED <<lib, rd>> /\ out' = SysInfo(rd[r].f)

(* The environment: the stream is moved, delivered objects are altered by the  *)
(* caller, objects are rendered.  None of it has any effect.                   *)
Quiet == UNCHANGED <<lib, rd>> /\ out' = None
=============================================================================
