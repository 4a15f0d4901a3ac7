------------------------------- MODULE MC_Rules -------------------------------
(* The text of a rule as it is typed, key by key, and the number stored with it; *)
(* and rules put together from parts given in every way.                         *)
EXTENDS PmcFormat, Json, IOUtils

VARIABLES typed, col, parts
rvars == <<typed, col, parts>>

Nat2(t) == CHOOSE k \in 0..100000 : ToString(k) = t
Mode  == IOEnv.VERIF_MODE
Depth == Nat2(IOEnv.VERIF_DEPTH)
Stride == Nat2(IOEnv.VERIF_STRIDE)
Phase  == Nat2(IOEnv.VERIF_PHASE)

(* Where typing starts: nothing, leading zeros, and just below what 32 bits hold. *)
Begun == {<<>>, <<48, 48>>, <<52, 50, 57, 52, 57, 54, 55>>, <<48, 52, 50, 57, 52, 57, 54, 55>>, <<57, 57, 57, 57, 57, 57, 57>>,
          <<50, 49, 52, 55, 52, 56, 51>>, <<56, 54, 32>>, [i \in 1..40 |-> 57]}
Keys == {48, 49, 50, 51, 53, 54, 57, 45, 32, 98}
PartsTried(table, numbers) ==
  {[k |-> "name", n |-> table[x]] : x \in DOMAIN table} \cup {[k |-> "member", v |-> x] : x \in DOMAIN table}
  \cup {[k |-> "number", v |-> x] : x \in numbers}
  \cup {[k |-> "absent"]}
  \cup {[k |-> "name", n |-> x] : x \in {"", "PI", "PIDD", "IS", "INCLUDE", "is not", "DATE AND TIME", "0", "40054"}}
ColumnParts   == PartsTried(ColumnName, (-3..3) \cup (40040..40095) \cup (40155..40170) \cup {2^16, 39788 + 65536, 2147483647})
RelationParts == PartsTried(RuleRelationName, (-2..12) \cup {255, 256, 65536})
ActionParts   == PartsTried(RuleActionName, (-2..4) \cup {255, 256, 257})
SomePart == [c |-> [k |-> "name", n |-> "PID"], r |-> [k |-> "member", v |-> 0], a |-> [k |-> "name", n |-> "INCLUDE"]]

RInit == IF Mode = "typing"
         THEN /\ typed \in {[b |-> x, u |-> x] : x \in Begun} /\ col \in {40054, Architecture, 40057} /\ parts = SomePart
         ELSE /\ typed = [b |-> <<>>, u |-> <<97>>] /\ col = 0 /\ parts = SomePart
Type == \E x \in Keys : /\ Len(typed.u) < Len(typed.b) + Depth
                        /\ typed' = [typed EXCEPT !.u = Append(@, x)] /\ UNCHANGED <<col, parts>>
(* One part after the other is given otherwise. *)
Choose == /\ col < 3 /\ col' = col + 1 /\ UNCHANGED typed
          /\ CASE col = 0 -> \E p \in ColumnParts : parts' = [parts EXCEPT !.c = p]
               [] col = 1 -> \E p \in RelationParts \cup {parts.r} : parts' = [parts EXCEPT !.r = p]
               [] col = 2 -> \E p \in ActionParts \cup {parts.a} : parts' = [parts EXCEPT !.a = p]
RNext == IF Mode = "typing" THEN Type ELSE Choose
RSpec == RInit /\ [][RNext]_rvars

(***************************************************************************)
(* The number, reckoned back into digits.                                  *)
(***************************************************************************)
RECURSIVE Tenth(_, _, _)
Tenth(b, i, r) == IF i = 0 THEN [q |-> <<>>, r |-> r]
                  ELSE LET v == r * 256 + b[i]
                           d == Tenth(b, i - 1, v % 10)
                       IN  [q |-> Append(d.q, v \div 10), r |-> d.r]
RECURSIVE Digits(_)
Digits(b) == IF \A i \in DOMAIN b : b[i] = 0 THEN <<>> ELSE LET d == Tenth(b, Len(b), 0) IN Append(Digits(d.q), 48 + d.r)
RECURSIVE NoZeros(_)
NoZeros(u) == IF u = <<>> \/ u[1] # 48 THEN u ELSE NoZeros(Tail(u))
Greatest == <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>
RECURSIVE NotAfter(_, _)
NotAfter(u, w) == u = <<>> \/ u[1] < w[1] \/ (u[1] = w[1] /\ NotAfter(Tail(u), Tail(w)))
Holds32(u) == Len(u) < 10 \/ (Len(u) = 10 /\ NotAfter(u, Greatest))

Numbered == Mode = "typing" =>
  LET u == typed.u
      b == RuleNumber(col, u)
      decimal == u # <<>> /\ {u[i] : i \in DOMAIN u} \subseteq 48..57
  IN  IF decimal THEN (IF Holds32(NoZeros(u)) THEN Digits(b) = NoZeros(u)
                       ELSE b = (IF col = Architecture THEN <<-1, -1, -1, -1>> ELSE <<0, 0, 0, 0>>))
      ELSE IF col = Architecture THEN b \in {<<32, 0, 0, 0>>, <<64, 0, 0, 0>>}
      ELSE b = <<0, 0, 0, 0>>
(* A rule is 21 bytes and its text, and is found again. *)
Stored == LET r == [col |-> 40054, rel |-> 1, act |-> 1, val |-> typed.u]
              b == RuleBytes(r)
          IN  NoTrailingNul(typed.u) =>
              /\ Len(b) = 21 + (IF typed.u = <<>> THEN 0 ELSE 2 * Len(typed.u) + 2)
              /\ RulesAt(b, 0, Len(b), 1) = [ok |-> TRUE, r |-> <<r>>]
(* Parts that are legal have a code, and the code has that name; nothing else does. *)
Command == [c |-> parts.c, r |-> parts.r, a |-> parts.a, v |-> [k |-> "text", u |-> typed.u]]
Named(p, table) == IF p.k = "absent" THEN TRUE ELSE IF p.k = "name" THEN \E x \in DOMAIN table : table[x] = p.n ELSE p.v \in DOMAIN table
Built == Mode = "parts" =>
  /\ LegalRule(Command) = (Named(parts.c, ColumnName) /\ Named(parts.r, RuleRelationName) /\ Named(parts.a, RuleActionName))
  /\ LegalRule(Command) => LET t == TheRule(Command) IN
       /\ t.col \in DOMAIN ColumnName /\ (parts.c.k = "name" => ColumnName[t.col] = parts.c.n)
       /\ t.rel \in DOMAIN RuleRelationName /\ (parts.r.k = "name" => RuleRelationName[t.rel] = parts.r.n)
       /\ t.act \in DOMAIN RuleActionName /\ (parts.a.k = "name" => RuleActionName[t.act] = parts.a.n)
       /\ (parts.c.k = "absent" => t.col = Architecture)
       /\ (parts.r.k = "absent" => RuleRelationName[t.rel] = "IS") /\ (parts.a.k = "absent" => RuleActionName[t.act] = "INCLUDE")
       /\ RulesAt(RuleBytes(t), 0, Len(RuleBytes(t)), 1).r = <<t>>
Export == IF Mode = "typing" THEN (NoTrailingNul(typed.u) => PrintT(<<"R", col, ToJson(typed.u)>>))
          ELSE (col = 3 => PrintT(<<"Q", ToJson(parts)>>))
=============================================================================
