------------------------------ MODULE MC_Confs -------------------------------
(* Two configurations loaded from one file, edited and dumped in every order    *)
(* up to a depth.                                                               *)
EXTENDS ConfEdit, Json, IOUtils

VARIABLES confs,    \* the two configurations
          hist      \* the letters so far
mvars == <<confs, hist>>

Nat2(t) == CHOOSE k \in 0..100000 : ToString(k) = t
Depth == Nat2(IOEnv.VERIF_DEPTH)

Filter == <<70,105,108,116,101,114,82,117,108,101,115>>
Widths == <<67,111,108,117,109,110,115>>
Map    == <<67,111,108,117,109,110,77,97,112>>
Auto   == <<65,117,116,111,115,99,114,111,108,108>>
Font   == <<76,111,103,70,111,110,116>>
Own    == <<120>>
RuleA == [col |-> 40054, rel |-> 0, act |-> 1, val |-> <<52>>]
RuleB == [col |-> Architecture, rel |-> 3, act |-> 0, val |-> <<51, 50>>]
Start == << [n |-> Filter, v |-> [t |-> "rules", r |-> <<RuleA>>]], [n |-> Widths, v |-> [t |-> "widths", l |-> <<1, 2>>]],
            [n |-> Font, v |-> [t |-> "font", n |-> [i \in 1..5 |-> <<i, 0, 0, 0>>], c |-> [i \in 1..8 |-> 0], u |-> <<65>>]],
            [n |-> Map, v |-> [t |-> "columns", l |-> <<40054>>]] >>

(* Letters: an edit of one of the two, or a call that must change nothing. *)
E(k, n) == [k |-> k, n |-> n]
X(k, n, x) == [k |-> k, n |-> n, x |-> x]
Edits == << [k |-> "set", n |-> Auto, v |-> [t |-> "int", b |-> <<1, 0, 0, 0>>]], [k |-> "set", n |-> Filter, v |-> [t |-> "rules", r |-> <<>>]],
            [k |-> "set", n |-> Own, v |-> [t |-> "bytes", b |-> <<1, 2>>]],
            E("del", Filter), E("move", Filter), X("append", Filter, RuleB), X("insert", Filter, RuleB), E("empty", Filter), E("reverse", Filter),
            [k |-> "rule", n |-> Filter, i |-> 1, x |-> RuleB], X("append", Widths, 65535), [k |-> "elem", n |-> Widths, i |-> 1, x |-> 7], E("pop", Map),
            X("append", Map, Architecture), [k |-> "font", n |-> Font, i |-> 1, x |-> <<9, 9, 9, 9>>], [k |-> "font", n |-> Font, i |-> 14, x |-> <<>>] >>
Letters == [j \in 1..(2 * Len(Edits)) |-> <<"edit", (j % 2) + 1, Edits[(j + 1) \div 2]>>]
           \o << <<"dump", 1, 0>>, <<"dump", 2, 0>>, <<"reload", 1, 0>>, <<"look", 1, 0>>, <<"load", 0, 0>> >>

MInit == confs = <<Start, Start>> /\ hist = <<>>
MNext == /\ Len(hist) < Depth
         /\ \E j \in DOMAIN Letters :
              LET l == Letters[j] IN
              /\ hist' = Append(hist, j)
              /\ confs' = IF l[1] = "edit" THEN [confs EXCEPT ![l[2]] = Edited(@, l[3])] ELSE confs
MSpec == MInit /\ [][MNext]_mvars

(* However it is edited, it dumps, and what is dumped loads as it is.          *)
Sound == \A k \in {1, 2} : LET c == confs[k] IN
           /\ Good(c) /\ Cardinality({c[i].n : i \in DOMAIN c}) = Len(c)
           /\ Decode(Encode(c)) = [st |-> "ok", opts |-> c]
(* An edit changes one configuration, everything else none.                    *)
Letter == Letters[hist'[Len(hist')]]
Apart == [][\A k \in {1, 2} : confs'[k] # confs[k] => Letter[1] = "edit" /\ Letter[2] = k]_mvars
(* Options that an edit does not name stay as and where they were.             *)
Others(c, n) == Without(c, n)
Narrow == [][Letter[1] = "edit" => Others(confs'[Letter[2]], Letter[3].n) = Others(confs[Letter[2]], Letter[3].n)]_mvars

Export == Len(hist) = Depth => PrintT(<<"S", hist>>)
ASSUME PrintT(<<"LETTERS", ToJson(Letters), ToJson(Start)>>)
=============================================================================
