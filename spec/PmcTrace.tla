------------------------------ MODULE PmcTrace -------------------------------
(* Sessions with configurations: sinks that are written and read, rules that   *)
(* are built and compared.  State: the sinks (content and position) and the    *)
(* rules built so far; every recorded call is one step, its result compared    *)
(* with what the format specification says.                                    *)
EXTENDS ConfEdit, Json, IOUtils

VARIABLES ci, li, sinks, rules,
          confs             \* the configurations in the caller's hands
vars == <<ci, li, sinks, rules, confs>>

Trace == JsonDeserialize(IOEnv.VERIF_TRACE)
Case == Trace[ci]
Call == Case.calls[li]
If(cond, clause) == IF cond THEN {} ELSE {clause}
NameOf(t) == t      \* value kinds are reported by name

(***************************************************************************)
(* Comparison of configurations                                            *)
(***************************************************************************)
ValueClauses(w, o) ==
  IF w.t # o.t THEN {"type:" \o w.t}
  ELSE IF w = o THEN {} ELSE {"value:" \o w.t}
ConfClauses(want, got) ==
  IF Len(want) # Len(got) THEN {"options"}
  ELSE IF \E i \in DOMAIN want : want[i].n # got[i].n
       THEN {IF {want[i].n : i \in DOMAIN want} = {got[i].n : i \in DOMAIN got} THEN "order" ELSE "names"}
  ELSE UNION {ValueClauses(want[i].v, got[i].v) : i \in DOMAIN want}

Raised(o) == o.k = "raise"

(***************************************************************************)
(* Sinks                                                                   *)
(***************************************************************************)
(* Content after bytes w were written at position p. *)
Overlay(c, p, w) ==
  IF w = <<>> THEN c
  ELSE [i \in 1..(IF Len(c) > p + Len(w) THEN Len(c) ELSE p + Len(w)) |->
          IF i <= p THEN (IF i <= Len(c) THEN c[i] ELSE 0) ELSE IF i <= p + Len(w) THEN w[i - p] ELSE c[i]]
OutsideSame(c, p, n, got) ==
  /\ \A i \in 1..p : i <= Len(got) => got[i] = (IF i <= Len(c) THEN c[i] ELSE 0)
  /\ \A i \in (p + n + 1)..Len(c) : i <= Len(got) => got[i] = c[i]

(***************************************************************************)
(* Rules                                                                   *)
(***************************************************************************)
NoRule == [col |-> -1, rel |-> -1, act |-> -1, val |-> <<>>]
(* A rule one part of which is given the value it has in another. *)
Assigned(a, b, part) ==
  IF a = NoRule \/ b = NoRule THEN a
  ELSE CASE part = "column"   -> [a EXCEPT !.col = b.col]
         [] part = "relation" -> [a EXCEPT !.rel = b.rel]
         [] part = "action"   -> [a EXCEPT !.act = b.act]
         [] OTHER             -> [a EXCEPT !.val = b.val]

(***************************************************************************)
(* What each call must answer                                              *)
(***************************************************************************)
LoadClauses(b, o) ==
  LET d == Decode(b) IN
  CASE d.st = "ok"      -> IF o.k # "conf" THEN {"load:exception"} ELSE {"load:" \o x : x \in ConfClauses(d.opts, o.opts)}
    [] d.st = "refused" -> If(Raised(o), "load:accepted")
    [] OTHER            -> If(o.k # "timeout", "timeout")

Clauses ==
  LET o == Call.obs IN
  CASE Call.op = "loads"     -> LoadClauses(Call.b, o)
    [] Call.op = "dumps"     -> IF ~Good(Call.opts) THEN {}
                                ELSE IF o.k # "bytes" THEN {"dump:exception"}
                                ELSE If(Matches(o.b, Encode(Call.opts)), "dump:bytes")
    [] Call.op = "roundtrip" -> IF ~Good(Call.opts) THEN {}
                                ELSE IF o.k # "conf" THEN {"roundtrip:exception"}
                                ELSE {"roundtrip:" \o x : x \in ConfClauses(Call.opts, o.opts)}
    [] Call.op = "redump"    -> IF ~Canonical(Call.b) THEN {}
                                ELSE IF o.k # "bytes" THEN {"redump:exception"}
                                ELSE If(Matches(o.b, Encode(Decode(Call.b).opts)), "redump:bytes")
    [] Call.op = "sink"      -> {}
    [] Call.op = "dump"      ->
         LET s == sinks[Call.s]
             w == Encode(Call.opts)
         IN  IF ~Good(Call.opts) THEN {}
             ELSE IF o.k # "sink" THEN {"dump:exception"}
             ELSE If(OutsideSame(s.c, s.p, Len(w), o.b), "dump:outside")
                  \cup If(Matches(o.b, Overlay(s.c, s.p, w)), "dump:bytes")
                  \cup If(o.p = s.p + Len(w), "dump:position")
    [] Call.op = "load"      -> LoadClauses(SubSeq(sinks[Call.s].c, Call.at + 1, Len(sinks[Call.s].c)), o)
    [] Call.op = "rule"      -> IF LegalRule(Call)
                                THEN (IF o.k # "rule" THEN {"rule:exception"}
                                      ELSE If(o.rule = TheRule(Call), "rule:fields"))
                                ELSE If(Raised(o), "rule:accepted")
    [] Call.op = "ruleset"   -> LET a == rules[Call.x]  b == rules[Call.y] IN
                                IF a = NoRule \/ b = NoRule THEN {}
                                ELSE IF o.k # "rule" THEN {"rule:exception"}
                                ELSE If(o.rule = Assigned(a, b, Call.part), "rule:fields")
    [] Call.op = "ruleeq"    -> IF rules[Call.x] = NoRule \/ rules[Call.y] = NoRule THEN {}
                                ELSE IF o.k # "eq" THEN {"eq:exception"}
                                ELSE LET same == rules[Call.x] = rules[Call.y] IN
                                     If(o.eq = same, "eq") \cup If(o.ne = ~same, "ne")
                                     \cup If(same => o.hash, "hash") \cup If(same => o.text, "text")
    [] Call.op = "rulevs"    -> IF rules[Call.x] = NoRule THEN {}
                                ELSE IF o.k # "eq" THEN {"eq:exception"}
                                ELSE If(~o.eq, "foreign:eq") \cup If(o.ne, "foreign:ne")
    \* configurations kept and edited: judged from what the caller was given
    [] Call.op \in {"conf", "edit"} -> {}
    [] Call.op = "loadconf"  -> If(Raised(o) => Decode(Call.b).st # "ok", "conf:exception")
    [] Call.op = "lookconf"  -> IF o.k # "conf" THEN {"conf:exception"} ELSE {"conf:" \o x : x \in ConfClauses(confs[Call.x], o.opts)}
    [] Call.op = "reload"    -> IF ~Good(confs[Call.x]) THEN {} ELSE IF o.k # "conf" THEN {"conf:exception"}
                                ELSE {"conf:" \o x : x \in ConfClauses(confs[Call.x], o.opts)}
    [] Call.op = "dumpconf"  -> IF ~Good(confs[Call.x]) THEN {}
                                ELSE IF o.k # "bytes" THEN {"conf:exception"}
                                ELSE If(Matches(o.b, Encode(confs[Call.x])), "conf:bytes")
    [] Call.op = "dumpbad"   -> If(Raised(o), "dump:accepted")

Report(c) == IF c = {} THEN TRUE ELSE PrintT(<<"BAD", Case.id, li, c>>)

TInit == ci = 0 /\ li = 0 /\ sinks = <<>> /\ rules = <<>> /\ confs = <<>>
NextCase ==
  /\ IF ci = 0 THEN TRUE ELSE li > Len(Case.calls)
  /\ ci < Len(Trace)
  /\ ci' = ci + 1 /\ li' = 1 /\ sinks' = <<>> /\ rules' = <<>> /\ confs' = <<>>
Step ==
  /\ ci > 0 /\ li <= Len(Case.calls)
  /\ Report(Clauses)
  /\ sinks' = CASE Call.op = "sink" -> Append(sinks, [c |-> Call.b, p |-> Call.p])
                \* a sink is continued with what is really in it
                [] Call.op = "dump" /\ Call.obs.k = "sink" -> [sinks EXCEPT ![Call.s] = [c |-> Call.obs.b, p |-> Call.obs.p]]
                [] OTHER -> sinks
  /\ rules' = CASE Call.op = "rule" -> Append(rules, IF LegalRule(Call) THEN TheRule(Call) ELSE NoRule)
                [] Call.op = "ruleset" -> [rules EXCEPT ![Call.x] = Assigned(@, rules[Call.y], Call.part)]
                [] OTHER -> rules
  /\ confs' = CASE Call.op = "conf" -> Append(confs, Call.opts)
                [] Call.op \in {"loadconf", "reload"} -> Append(confs, IF Call.obs.k = "conf" THEN Call.obs.opts ELSE <<>>)
                [] Call.op = "edit" -> [confs EXCEPT ![Call.x] = Edited(@, Call.e)]
                [] OTHER -> confs
  /\ li' = li + 1 /\ UNCHANGED ci
TNext == NextCase \/ Step
TSpec == TInit /\ [][TNext]_vars
TView == <<ci, li>>

RECURSIVE Total(_)
Total(k) == IF k = 0 THEN 0 ELSE 1 + Len(Trace[k].calls) + Total(k - 1)
Accepted == TLCGet("stats").diameter - 1 = Total(Len(Trace)) /\ PrintT(<<"DONE", Len(Trace), TLCGet("stats").diameter - 1>>)
=============================================================================
