------------------------------ MODULE MC_Session ------------------------------
(* Exhaustive exploration of PmlReader: two readers over one small file, every *)
(* sequence of calls up to a depth, and the export of those sequences.         *)
EXTENDS PmlReader, TLC, IOUtils

VARIABLES hist, got       \* the letters so far; per reader, the events iterated
mvars == <<lib, rd, out, hist, got>>

Number(s) == CHOOSE n \in 0..4096 : ToString(n) = s
Depth == Number(IOEnv.VERIF_DEPTH)
NEv   == Number(IOEnv.VERIF_EVENTS)
Bad   == Number(IOEnv.VERIF_BAD)            \* 0: every record is well-formed
Fails == IOEnv.VERIF_FAULTS = "1"
Logs  == Number(IOEnv.VERIF_LOGS)           \* 2: the readers read different logs

File == [status |-> "open", n |-> NEv, events |-> [i \in 1..NEv |-> [wf |-> i # Bad]]]
LogOf(r) == IF r <= Logs THEN r ELSE 1

L(op, r) == [op |-> op, r |-> r, i |-> 0, a |-> NONE, b |-> NONE, c |-> NONE]
Ix(r, i) == [L("index", r) EXCEPT !.i = i]
Sl(r, a, b, c) == [L("slice", r) EXCEPT !.a = a, !.b = b, !.c = c]

Letters ==
  << L("next", 1), L("next", 2), L("len", 1), Ix(1, 0), Ix(1, -1), Ix(1, 1), Ix(1, NEv), Ix(1, -NEv - 1), Ix(2, 1),
     Sl(1, NONE, NONE, NONE), Sl(1, NONE, NONE, -1), Sl(1, 1, 2, NONE), Sl(1, NONE, NONE, 0), Sl(2, -2, NONE, NONE), L("drain", 1), L("drain", 2),
     L("reversed", 1), L("procs", 1), L("sys", 1), L("badindex", 1), L("readall", 1),
     L("seek", 1), L("iter", 1), L("abandon", 1), L("proclist", 1), L("sysdict", 1), L("mutate", 1), L("render", 1) >>
  \o (IF Logs = 2 THEN << Ix(2, 0), L("procs", 2), L("sys", 2), L("readall", 2), L("proclist", 2), L("sysdict", 2) >> ELSE <<>>)
  \o IF Fails THEN << L("nextfault", 1), [L("indexfault", 1) EXCEPT !.i = 1] >> ELSE <<>>

Do(l) ==
  CASE l.op = "next"       -> Next1(l.r)
    [] l.op = "nextfault"  -> NextFault(l.r)
    [] l.op = "len"        -> Length(l.r)
    [] l.op = "index"      -> Index(l.r, l.i)
    [] l.op = "indexfault" -> IndexFault(l.r, l.i)
    [] l.op = "badindex"   -> BadIndex(l.r)
    [] l.op = "slice"      -> Slice(l.r, l.a, l.b, l.c)
    [] l.op = "drain"      -> Drain(l.r)
    [] l.op = "reversed"   -> Reversed(l.r)
    [] l.op = "procs"      -> Processes(l.r)
    [] l.op = "sys"        -> System1(l.r)
    [] l.op = "readall"    -> ReadAll(LogOf(l.r))
    [] OTHER               -> Quiet

Reader(r) == [f |-> LogOf(r), o |-> AllOptions, cur |-> 0, live |-> TRUE]
MInit == lib = [f \in 1..Logs |-> File] /\ rd = <<Reader(1), Reader(2)>> /\ out = Opened /\ hist = <<>> /\ got = <<<<>>, <<>>>>

(* What an answer delivers, as event numbers. *)
Delivered(o) == CASE o.k \in {"event", "freeone"} -> <<o.i>>
                  [] o.k \in {"events", "freemany"} -> o.is
                  [] OTHER -> <<>>

MNext ==
  /\ Len(hist) < Depth
  /\ \E j \in DOMAIN Letters :
       LET l == Letters[j] IN
       /\ Do(l)
       /\ hist' = Append(hist, j)
       /\ got' = IF l.op \in {"next", "drain"} THEN [got EXCEPT ![l.r] = @ \o Delivered(out')]
                 ELSE IF l.op = "nextfault" /\ out'.k = "raise" THEN [got EXCEPT ![l.r] = Append(@, Len(@) + 1)]
                 ELSE got

MSpec == MInit /\ [][MNext]_mvars

(* Iteration delivers every event once, in order, whatever else is called. *)
InOrder == \A r \in {1, 2} : /\ got[r] = [j \in 1..Len(got[r]) |-> j]
                             /\ rd[r].live => Len(got[r]) = rd[r].cur
                             /\ rd[r].cur \in 0..NEv
(* A call has no effect on the other reader, and only iteration has any. *)
Letter == Letters[hist'[Len(hist')]]
NoInterference == [][/\ lib' = lib
                     /\ \A r \in {1, 2} : rd'[r] # rd[r] => Letter.r = r /\ Letter.op \in {"next", "drain", "nextfault"}]_mvars
(* Whatever is answered is answered of the log that was asked about. *)
OfThatLog == [][out'.k \in {"event", "events", "procs", "sys", "freeone", "freemany"} => out'.f = LogOf(Letter.r)]_mvars
(* What is not iteration answers by its arguments alone. *)
Answer(l) ==
  LET p == IF l.i < 0 THEN l.i + NEv + 1 ELSE l.i + 1 IN
  CASE l.op = "len" -> out = Count(NEv)
    [] l.op = "index" -> IF p \in 1..NEv THEN Delivered(out) = <<p>> ELSE out = Raise({"IndexError"})
    [] l.op \in {"readall"} -> Delivered(out) = [j \in 1..NEv |-> j]
    [] l.op = "reversed" -> Delivered(out) = [j \in 1..NEv |-> NEv + 1 - j]
    [] OTHER -> TRUE
Functional == hist # <<>> => \/ ~rd[Letters[hist[Len(hist)]].r].live
                             \/ Answer(Letters[hist[Len(hist)]])

(* Slices are Python's: the positions a, a+c, a+2c, ... before b, where a part  *)
(* that is left out is the end of the list, a negative one counts from it, and  *)
(* positions outside the list are not there.                                    *)
Mod(x, m) == ((x % m) + m) % m
Declared(a, b, c, n) ==
  LET step == IF c = NONE THEN 1 ELSE c
      abs(x) == IF x < 0 THEN -x ELSE x
      from(x) == IF x < 0 THEN x + n ELSE x
      first == IF a = NONE THEN (IF step > 0 THEN 0 ELSE n - 1)
               ELSE IF step > 0 THEN (IF from(a) < 0 THEN 0 ELSE from(a))
               ELSE (IF from(a) > n - 1 THEN n - 1 ELSE from(a))
      last(x) == b = NONE \/ (IF step > 0 THEN x < from(b) ELSE x > from(b))
      X == {x \in 0..(n - 1) : /\ (IF step > 0 THEN x >= first ELSE x <= first)
                               /\ Mod(x - first, abs(step)) = 0 /\ last(x)}
      at(j) == CHOOSE x \in X : Cardinality({y \in X : IF step > 0 THEN y < x ELSE y > x}) = j - 1
  IN  [j \in 1..Cardinality(X) |-> at(j) + 1]
Parts == (-7..7) \cup {NONE}
ASSUME \A n \in 0..5 : \A a, b \in Parts : \A c \in ((-3..3) \cup {NONE, 6, -6}) \ {0} : SliceSeq(a, b, c, n) = Declared(a, b, c, n)

Export == Len(hist) = Depth => PrintT(<<"S", hist>>)
ASSUME PrintT(<<"LETTERS", [j \in DOMAIN Letters |-> <<Letters[j].op, Letters[j].r, Letters[j].i, Letters[j].a, Letters[j].b, Letters[j].c>>]>>)
=============================================================================
