------------------------------ MODULE ConfEdit -------------------------------
(* A configuration in the caller's hands: an ordered dictionary of values that *)
(* are the caller's own.  Edited(opts, e) is what one edit makes of it; an     *)
(* edit that does not apply (no such option, no such element) changes nothing. *)
EXTENDS PmcFormat

At(opts, n) == IF \E i \in DOMAIN opts : opts[i].n = n THEN CHOOSE i \in DOMAIN opts : opts[i].n = n ELSE 0
Without(opts, n) == SelectSeq(opts, LAMBDA o : o.n # n)

(* The list that a value is, and the value with another list. *)
IsList(v) == v.t \in {"widths", "columns", "rules"}
ListOf(v) == IF v.t = "rules" THEN v.r ELSE v.l
WithList(v, l) == IF v.t = "rules" THEN [t |-> "rules", r |-> l] ELSE [t |-> v.t, l |-> l]

EditedList(l, e) ==
  CASE e.k = "append"  -> Append(l, e.x)
    [] e.k = "insert"  -> <<e.x>> \o l
    [] e.k = "pop"     -> IF l = <<>> THEN l ELSE SubSeq(l, 1, Len(l) - 1)
    [] e.k = "reverse" -> [i \in DOMAIN l |-> l[Len(l) + 1 - i]]
    [] e.k = "empty"   -> <<>>
    [] e.k \in {"elem", "rule"} -> IF e.i \in DOMAIN l THEN [l EXCEPT ![e.i] = e.x] ELSE l
    [] OTHER           -> l

Edited(opts, e) ==
  LET i == At(opts, e.n) IN
  CASE e.k = "set" -> IF i = 0 THEN Append(opts, [n |-> e.n, v |-> e.v]) ELSE [opts EXCEPT ![i].v = e.v]
    [] i = 0       -> opts
    [] e.k = "del"  -> Without(opts, e.n)
    [] e.k = "move" -> Append(Without(opts, e.n), opts[i])
    [] e.k = "font" -> IF opts[i].v.t # "font" THEN opts
                       ELSE IF e.i <= 5 THEN [opts EXCEPT ![i].v.n[e.i] = e.x]
                       ELSE IF e.i <= 13 THEN [opts EXCEPT ![i].v.c[e.i - 5] = e.x]
                       ELSE [opts EXCEPT ![i].v.u = e.x]
    [] OTHER        -> IF IsList(opts[i].v) THEN [opts EXCEPT ![i].v = WithList(@, EditedList(ListOf(@), e))] ELSE opts
=============================================================================
