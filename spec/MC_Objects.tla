------------------------------ MODULE MC_Objects -------------------------------
(* Three delivered events, and everything a program does with such objects: it *)
(* builds others from their parts, copies them, assigns a part of one to       *)
(* another, has an event delivered again.                                      *)
EXTENDS Objects, TLC, Json, IOUtils, FiniteSets

VARIABLES objs, hist
mvars == <<objs, hist>>

Nat2(t) == CHOOSE k \in 0..1000 : ToString(k) = t
Depth == Nat2(IOEnv.VERIF_DEPTH)

(* All of a, but for one part of b. *)
But(a, b, q) == [p \in Parts |-> IF p = q THEN b ELSE a]
Turns == [p \in Parts |-> 1 + ((CHOOSE i \in DOMAIN PartNames : PartNames[i] = p) % 3)]
Sparse == [p \in Parts |-> IF p \in {"tid", "dur", "res"} THEN 0 ELSE 2]
N == Len(PartNames)
Letters == [j \in 1..N |-> [k |-> "build", from |-> But(1, 2, PartNames[j])]]
           \o << [k |-> "build", from |-> But(3, 3, "proc")], [k |-> "build", from |-> Turns], [k |-> "build", from |-> Sparse] >>
           \o [j \in 1..4 |-> [k |-> "copy", x |-> j]]                                           \* 4: the youngest
           \o [j \in 1..N |-> [k |-> "set", x |-> 1, q |-> PartNames[j], y |-> 3]]
           \o [j \in 1..N |-> [k |-> "set", x |-> 4, q |-> PartNames[j], y |-> 2]]
           \o [j \in 1..N |-> [k |-> "set", x |-> 2, q |-> PartNames[j], y |-> 4]]
           \o [j \in 1..3 |-> [k |-> "again", i |-> j]]
The(x) == IF x = 4 THEN Len(objs) ELSE x
Does(l) == CASE l.k = "build" -> Built(objs, l.from)
             [] l.k = "copy"  -> Copied(objs, The(l.x))
             [] l.k = "set"   -> Assigned(objs, The(l.x), l.q, The(l.y))
             [] l.k = "again" -> Given(objs, l.i)

MInit == objs = [i \in 1..3 |-> [q \in Parts |-> i]] /\ hist = <<>>
MNext == Len(hist) < Depth /\ \E j \in DOMAIN Letters : hist' = Append(hist, j) /\ objs' = Does(Letters[j])
MSpec == MInit /\ [][MNext]_mvars

Letter == Letters[hist'[Len(hist')]]
(* Every part stems from a delivery; only what has a default is left out.      *)
Whole == \A k \in DOMAIN objs, q \in Parts : objs[k][q] \in 1..3 \/ (objs[k][q] = 0 /\ q \in {"tid", "dur", "res"})
(* What is done to one object is done to no other, and to no other part.       *)
Apart == [][\A k \in DOMAIN objs : objs'[k] # objs[k] => /\ Letter.k = "set" /\ The(Letter.x) = k
                                                         /\ \A q \in Parts \ {Letter.q} : objs'[k][q] = objs[k][q]]_mvars
(* At most one object comes about at a time; a copy equals what it was made of, *)
(* and an event delivered again is the event, whatever was done to the first.   *)
Born == [][/\ Len(objs') - Len(objs) = (IF Letter.k = "set" THEN 0 ELSE 1)
           /\ Letter.k = "copy" => objs'[Len(objs')] = objs[The(Letter.x)]
           /\ Letter.k = "again" => \A q \in Parts : objs'[Len(objs')][q] = Letter.i]_mvars

Export == Len(hist) = Depth => PrintT(<<"S", hist>>)
ASSUME PrintT(<<"LETTERS", ToJson(Letters)>>)
=============================================================================
