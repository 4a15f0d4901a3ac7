------------------------------ MODULE PmlTrace -------------------------------
(* Validation of recorded sessions against PmlReader over real files.          *)
(*                                                                             *)
(* The trace is a sequence of cases: the bytes of the files, and the calls     *)
(* made through the public interface with what they returned.  Every call is   *)
(* taken as the PmlReader action of the same name; its observed result is then *)
(* compared with the abstract response.  Verdicts are total: each disagreement *)
(* is reported as a named clause and validation goes on.                       *)
EXTENDS PmlReader, Csv, Objects

VARIABLES ci, li, regs, seen, memo,     \* regs, seen: the objects held, as specified and as observed when they came about
          objs                          \* what their parts are, by the register of the delivery
tvars == <<lib, rd, out, ci, li, regs, seen, memo, objs>>

Trace == JsonDeserialize(IOEnv.VERIF_TRACE)
Case == Trace[ci]
Call == Case.calls[li]

(***************************************************************************)
(* Comparison of one delivered event with the specification.               *)
(***************************************************************************)
If(cond, clause) == IF cond THEN {} ELSE {clause}

SameList(a, b) == a = b \/ (a = <<"">> /\ b = <<>>)
SameDetail(d, o) == /\ d.k = o.k
                    /\ \/ d.t = "*"
                       \/ d.t = "l" /\ o.t = "l" /\ SameList(d.l, o.l)
                       \/ d.t # "l" /\ d.t = o.t /\ d.s = o.s
SameDetails(det, obs) == Len(det) = Len(obs) /\ \A i \in DOMAIN det : SameDetail(det[i], obs[i])
(* Which keys disagree, for the report. *)
KeyClause(e, k) == IF e.class = "Network" /\ k # "Length" THEN "det:kv" ELSE "det:" \o k
DetailClauses(e, obs) ==
  LET det == e.det IN
  IF SameDetails(det, obs) THEN {}
  ELSE IF Len(det) = Len(obs) /\ \A i \in DOMAIN det : det[i].k = obs[i].k
       THEN {KeyClause(e, det[i].k) : i \in {j \in DOMAIN det : ~SameDetail(det[j], obs[j])}}
       ELSE LET want == {det[i].k : i \in DOMAIN det}
                got  == {obs[i].k : i \in DOMAIN obs}
                mark(k, sign) == IF e.class = "Network" /\ k # "Length" THEN "det:kv" ELSE "det:" \o sign \o k
            IN  IF want = got THEN {"det:order"}
                ELSE {mark(k, "-") : k \in want \ got} \cup {mark(k, "+") : k \in got \ want}
(* Without details, whatever is still delivered is what would be delivered. *)
PartDetails(det, obs) == \A j \in DOMAIN obs : \E i \in DOMAIN det : SameDetail(det[i], obs[j])

ProcClauses(p, o) ==
  (IF p.f = o.f THEN {}
   ELSE {"proc:" \o (<<"pid", "parent_pid", "authentication_id", "session", "virtualized", "is_process_64bit",
                      "integrity", "user", "process_name", "image_path", "command_line", "company", "version",
                      "description", "start_time", "end_time">>)[i] : i \in {j \in 1..16 : p.f[j] # o.f[j]}})
  \cup If(p.mods = o.mods, "proc:modules")

Shift(t, minutes) ==       \* a timestamp moved by whole minutes
  LET d == SubSeq(Mul(Mul(LE(IF minutes < 0 THEN -minutes ELSE minutes, 2) \o <<0, 0, 0, 0, 0>>, 60000), 10000), 1, 8)
  IN  IF minutes < 0 THEN Minus(t, d) ELSE SubSeq(Add(t, d), 1, 8)

CsvClauses(e, p, o, de) ==
  LET first == IF o.first = <<>> THEN e.dateb ELSE o.first
      rec == CsvRecord(e, p, first)
      col(i) == LET is == {j \in DOMAIN o.rec : o.rec[j][1] = rec[i][1]} IN
                IF is = {} THEN FALSE ELSE LET v == o.rec[CHOOSE j \in is : TRUE][2] IN
                rec[i][2] = Unspecified \/ v = rec[i][2]
                \/ (~de /\ rec[i][1] \in {"Detail", "Category", "Path"})
  IN  IF o.exc # "" THEN If(TimesOpen(e), "csv:exception")
      ELSE {"csv:" \o rec[i][1] : i \in {j \in DOMAIN rec : ~col(j)}}
           \cup If(Len(o.rec) = 27, "csv:columns")

(* Printed forms, of what was delivered. *)
TextClauses(e, p, o) ==
  IF o.txt = <<>> THEN {}
  ELSE (IF o.proc.f[1] # p.f[1] THEN {}
        ELSE If(o.txt[2] = PrintedProcess(o.proc.f[10], p.pid), "str:process")
             \cup (IF o.date # e.date \/ ~InRange(e.dateb) THEN {}
                   ELSE If(o.txt[1] = PrintedEvent(o.proc.f[9], p.pid, o.op, o.path, e.dateb), "str:event")))
       \cup If(o.txt[3] = [j \in DOMAIN o.proc.mods |-> LET m == o.proc.mods[j] IN PrintedModule(m[3], m[1], m[2])], "str:module")

EventIs(e, p, opt, o) ==
  LET gated == ~opt.de
      date == IsoDate(e.dateb)
  IN
  IF o.k # "event" THEN {"exception"}
  ELSE ProcClauses(p, o.proc)
       \cup If(o.tid = e.tid, "tid") \cup If(o.cls = e.class, "class") \cup If(o.op = e.op, "op")
       \cup If(o.dur = e.dur, "dur") \cup If(o.date = e.date, "date") \cup If(o.res = e.res, "res")
       \cup If(o.stack = (IF opt.st THEN e.stack ELSE <<>>), "stack")
       \cup If(o.path = e.path \/ (gated /\ o.path = e.base), "path")
       \cup If(o.cat = e.cat \/ (gated /\ o.cat = ""), "cat")
       \cup (IF gated THEN If(PartDetails(e.det, o.det), "det:extra") ELSE DetailClauses(e, o.det))
       \cup (IF o.dt = "" \/ ~InRange(e.dateb) THEN {} ELSE If(o.dt = date, "datetime"))
       \cup (IF o.dtl = "" \/ ~InRange(e.dateb) THEN {}
             ELSE If(o.dtl = IsoDate(Shift(e.dateb, o.tz)), "localtime"))
       \cup UNION {CsvClauses(e, p, o.csv[j], opt.de) : j \in DOMAIN o.csv}
       \cup TextClauses(e, p, o)

EventClauses(f, i, opt, o) == EventIs(lib[f].events[i], lib[f].procs[lib[f].events[i].proc], opt, o)

SysClauses(s, o) ==
  LET want == <<<<"Computer Name", "s", s.computer>>, <<"Operating System", "s", s.os>>, <<"System Root", "s", s.root>>,
                <<"Logical Processors", "i", s.cpus>>, <<"System Type", "s", s.type>>>>
      val(k) == LET is == {j \in DOMAIN o.d : o.d[j].k = k} IN
                IF is = {} THEN <<"missing", "">> ELSE LET d == o.d[CHOOSE j \in is : TRUE] IN <<d.t, d.s>>
  IN  IF ~s.wf THEN {}
      ELSE IF o.k # "sys" THEN {"sys:exception"}
      ELSE UNION {If(val(want[i][1]) = <<want[i][2], want[i][3]>>, "sys:" \o want[i][1]) : i \in DOMAIN want}
           \cup If(val("Memory (RAM)")[1] = "s" /\ val("Memory (RAM)")[2] \in s.ram, "sys:Memory")
           \cup If(Len(o.d) = 6, "sys:keys")

ProcListClauses(ps, o) ==
  IF o.k # "procs" THEN {"procs:exception"}
  ELSE If(Len(o.p) = Len(ps), "procs:count")
       \cup UNION {ProcClauses(ps[i], o.p[i]) : i \in 1..Min2(Len(ps), Len(o.p))}

(***************************************************************************)
(* Response o against the abstract response w.                             *)
(***************************************************************************)
RaisedOk(names, o) == o.k = "raise" /\ ("any" \in names \/ \E n \in names : \E j \in DOMAIN o.mro : o.mro[j] = n)

(* An event of a process that is not recorded is not given another one. *)
Nobody(is, f, o) == If((\E i \in is : ~lib[f].events[i].wf /\ lib[f].events[i].orphan) => o.k = "raise", "proc:nobody")

Clauses(w, o) ==
  CASE w.k = "none"   -> If(o.k = "none", "exception")
    [] w.k = "free"   -> If(o.k # "timeout", "timeout")
    [] w.k = "opened" -> If(o.k = "opened", "open")
    [] w.k = "raise"  -> If(RaisedOk(w.names, o), IF o.k = "raise" THEN "raise:kind" ELSE "raise:missing")
    [] w.k = "count"  -> If(o.k = "count" /\ o.n = ToString(w.n), "len")
    [] w.k = "stop"   -> If(o.k = "stop", "stop")
    [] w.k = "event"  -> EventClauses(w.f, w.i, w.o, o)
    [] w.k = "events" -> IF o.k # "events" THEN {"exception"}
                         ELSE If(Len(o.e) = Len(w.is), "count")
                              \cup UNION {EventClauses(w.f, w.is[j], w.o, o.e[j]) : j \in 1..Min2(Len(w.is), Len(o.e))}
    [] w.k = "freeone"  -> If(o.k \in {"event", "raise"}, "isolation") \cup Nobody({w.i}, w.f, o)
    [] w.k = "freemany" -> Nobody({w.is[j] : j \in DOMAIN w.is}, w.f, o) \cup If(o.k = "raise" \/ (o.k = "events" /\ Len(o.e) = Len(w.is)), "isolation")
    [] w.k = "procs"  -> ProcListClauses(lib[w.f].procs, o)
    [] w.k = "sys"    -> SysClauses(lib[w.f].sys, o)

(* A record outside the specification still always reads the same. *)
MemoKey(w) == <<w.f, w.i, w.o.st, w.o.de>>
Again(w, o) == IF w.k = "freeone" /\ MemoKey(w) \in DOMAIN memo THEN If(memo[MemoKey(w)] = o, "repeat") ELSE {}
Remember(w, o) == IF w.k = "freeone" /\ MemoKey(w) \notin DOMAIN memo THEN memo @@ (MemoKey(w) :> o) ELSE memo

(* Two delivered events are equal exactly when everything recorded is. *)
(* (Judged on what was delivered, so that this says nothing about decoding.)   *)
EqModel(x, y) == /\ x.proc = y.proc /\ x.tid = y.tid /\ x.cls = y.cls /\ x.op = y.op /\ x.dur = y.dur /\ x.date = y.date
                 /\ x.res = y.res /\ x.path = y.path /\ x.cat = y.cat /\ x.det = y.det /\ x.stack = y.stack
EqClauses(a, b, x, y, o) ==
  IF o.k # "eq" THEN {"eq:exception"}
  ELSE LET want == EqModel(x, y) IN
       If(o.eq = want, "eq") \cup If(o.ne = ~want, "ne") \cup If(want => o.hash, "hash")
       \cup If(<<a.f, a.i, a.o>> = <<b.f, b.i, b.o>> => o.eq, "same")

Report(clauses) == IF clauses = {} THEN TRUE ELSE PrintT(<<"BAD", Case.id, li, clauses>>)

TInit == Init /\ ci = 0 /\ li = 0 /\ regs = <<>> /\ seen = <<>> /\ memo = <<>> /\ objs = <<>>

WfEvents(file) == Cardinality({i \in DOMAIN file.events : file.events[i].wf})
NextCase ==
  /\ IF ci = 0 THEN TRUE ELSE li > Len(Case.calls)
  /\ ci < Len(Trace)
  /\ ci' = ci + 1 /\ li' = 1
  /\ Library([i \in DOMAIN Trace[ci + 1].files |-> ParseFile(Trace[ci + 1].files[i])])
  /\ regs' = <<>> /\ seen' = <<>> /\ memo' = <<>> /\ objs' = <<>>
  /\ PrintT(<<"CASE", Trace[ci + 1].id, [f \in DOMAIN lib' |-> lib'[f].status],
              [f \in DOMAIN lib' |-> Len(lib'[f].events)], [f \in DOMAIN lib' |-> WfEvents(lib'[f])]>>)

IsCall(name) == ci > 0 /\ li <= Len(Case.calls) /\ Call.op = name

(* The reader action that a call stands for.  A call on a reader that was never *)
(* opened is outside the specification.                                         *)
Opt(c) == [st |-> c.st, de |-> c.de]
Dead == Call.op \in {"len", "next", "index", "badindex", "slice", "drain", "reversed", "procs", "sys"} /\ ~Live(Call.r)
Step ==
  \/ IsCall("open") /\ Open(Call.f, Opt(Call))
  \/ IsCall("readall") /\ ReadAll(Call.f)
  \/ IsCall("quiet") /\ Quiet
  \/ /\ ~Dead
     /\ \/ IsCall("len") /\ Length(Call.r)
        \/ IsCall("next") /\ ~Call.fault /\ Next1(Call.r)
        \/ IsCall("next") /\ Call.fault /\ NextFault(Call.r)
        \/ IsCall("index") /\ ~Call.fault /\ Index(Call.r, Call.i)
        \/ IsCall("index") /\ Call.fault /\ IndexFault(Call.r, Call.i)
        \/ IsCall("badindex") /\ BadIndex(Call.r)
        \/ IsCall("slice") /\ Slice(Call.r, Call.a, Call.b, Call.c)
        \/ IsCall("drain") /\ Drain(Call.r)
        \/ IsCall("reversed") /\ Reversed(Call.r)
        \/ IsCall("procs") /\ Processes(Call.r)
        \/ IsCall("sys") /\ System1(Call.r)

(* A call whose response is compared. *)
Judged ==
  /\ ci > 0 /\ li <= Len(Case.calls)
  /\ Step
  /\ Report(Clauses(out', Call.obs) \cup Again(out', Call.obs))
  /\ memo' = Remember(out', Call.obs)
  /\ regs' = CASE Call.op \in {"next", "index"} -> Append(regs, out')
               \* the caller changed its own event: nothing is claimed of that object any more
               [] Call.op = "quiet" -> IF Call.do = "mutate" THEN [regs EXCEPT ![Call.x] = Free] ELSE regs
               [] OTHER -> regs
  /\ seen' = IF Call.op \in {"next", "index"} THEN Append(seen, Call.obs) ELSE seen
  /\ objs' = IF Call.op \in {"next", "index"} THEN Given(objs, Len(objs) + 1) ELSE objs
  /\ li' = li + 1 /\ UNCHANGED ci

(* Calls on objects held (regs: 1-based in the order they came about).  What is *)
(* known of an object is what is known of the deliveries its parts come from.   *)
Delivered(k) == k = Default \/ (regs[k].k = "event" /\ seen[k].k = "event")
Known(m) == \A q \in Parts : Delivered(m[q])
RegOk(k) == k \in DOMAIN regs /\ regs[k].k # "free" /\ Known(objs[k])
Plainly(k) == regs[k].k = "event" /\ \A q \in Parts : objs[k][q] = k            \* as delivered, every part its own
Full(m) == \A q \in Parts : m[q] = Default \/ regs[m[q]].o = [st |-> TRUE, de |-> TRUE]

(* The event that the parts m make: as specified, and as it was delivered.      *)
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
Specified(m) ==
  LET e(q) == IF m[q] = Default THEN [tid |-> "0", tidb |-> Zero8, dur |-> "0", durb |-> Zero8, res |-> "0", resb |-> <<0, 0, 0, 0>>]
              ELSE lib[regs[m[q]].f].events[regs[m[q]].i]
  IN  [e("what") EXCEPT !.tid = e("tid").tid, !.tidb = e("tid").tidb, !.date = e("date").date, !.dateb = e("date").dateb,
                        !.dur = e("dur").dur, !.durb = e("dur").durb, !.res = e("res").res, !.resb = e("res").resb,
                        !.stack = e("stack").stack, !.path = e("path").path, !.cat = e("cat").cat]
Owner(m) == LET r == regs[m["proc"]] IN lib[r.f].procs[lib[r.f].events[r.i].proc]
Observed(m) ==
  LET s(q) == IF m[q] = Default THEN [tid |-> "0", dur |-> "0", res |-> "0"] ELSE seen[m[q]]
  IN  [s("what") EXCEPT !.proc = s("proc").proc, !.tid = s("tid").tid, !.date = s("date").date, !.dur = s("dur").dur, !.res = s("res").res,
                        !.stack = s("stack").stack, !.path = s("path").path, !.cat = s("cat").cat]
ObjectClauses(k, m, o) ==
  IF k \in DOMAIN regs /\ Plainly(k) THEN EventClauses(regs[k].f, regs[k].i, regs[k].o, o)
  ELSE IF Full(m) THEN EventIs(Specified(m), Owner(m), [st |-> TRUE, de |-> TRUE], o) ELSE {}
SameClauses(x, y, o) ==
  IF Plainly(x) /\ Plainly(y) THEN EqClauses(regs[x], regs[y], seen[x], seen[y], o)
  ELSE IF o.k # "eq" THEN {"eq:exception"}
  ELSE LET want == EqModel(Observed(objs[x]), Observed(objs[y])) IN
       If(o.eq = want, "eq") \cup If(o.ne = ~want, "ne") \cup If(want => o.hash, "hash")

OnObject ==
  /\ ci > 0 /\ li <= Len(Case.calls)
  /\ Call.op \in {"look", "eq", "vary", "stable"}
  /\ Quiet
  /\ CASE Call.op = "look" -> (RegOk(Call.x) => Report(ObjectClauses(Call.x, objs[Call.x], Call.obs)))
       [] Call.op = "eq" -> (RegOk(Call.x) /\ RegOk(Call.y) => Report(SameClauses(Call.x, Call.y, Call.obs)))
       \* a copy with one field changed, or a foreign object: never equal
       [] Call.op = "vary" -> (RegOk(Call.x) => Report(IF Call.obs.k # "eq" THEN {"eq:exception"}
                                                       ELSE If(~Call.obs.eq, "eq:" \o Call.field) \cup If(Call.obs.ne, "ne:" \o Call.field)))
       \* str, repr, hash twice and on a fresh copy of the same event
       [] Call.op = "stable" -> (RegOk(Call.x) => Report(If(Call.obs.k = "stable", "stable")))
  /\ UNCHANGED <<ci, regs, seen, memo, objs>> /\ li' = li + 1

(* A program builds an object, copies one, assigns a part.                      *)
Making ==
  /\ ci > 0 /\ li <= Len(Case.calls)
  /\ Call.op \in {"build", "copy", "set"}
  /\ Quiet
  /\ objs' = CASE Call.op = "build" -> Built(objs, Call.parts)
               [] Call.op = "copy"  -> Copied(objs, Call.x)
               [] Call.op = "set"   -> Assigned(objs, Call.x, Call.q, Call.y)
  /\ IF Call.op = "set" THEN UNCHANGED <<regs, seen>>
     ELSE regs' = Append(regs, [k |-> "made"]) /\ seen' = Append(seen, Call.obs)
  /\ LET k == IF Call.op = "set" THEN Call.x ELSE Len(objs')
         m == objs'[k]
     IN  (Known(m) /\ Full(m)) => Report(EventIs(Specified(m), Owner(m), [st |-> TRUE, de |-> TRUE], Call.obs))
  /\ UNCHANGED <<ci, memo>> /\ li' = li + 1

(* An object of which some parts are given, and the rest is not.                *)
Bare ==
  /\ ci > 0 /\ li <= Len(Case.calls)
  /\ Call.op = "bare"
  /\ Quiet
  /\ Report(BareClauses(Call.q, Call.parts, Call.vals, Call.obs))
  /\ UNCHANGED <<ci, regs, seen, memo, objs>> /\ li' = li + 1

SkipDead == ci > 0 /\ li <= Len(Case.calls) /\ Dead /\ Quiet /\ li' = li + 1
            /\ regs' = (IF Call.op \in {"next", "index"} THEN Append(regs, Free) ELSE regs)
            /\ seen' = (IF Call.op \in {"next", "index"} THEN Append(seen, Call.obs) ELSE seen) /\ UNCHANGED <<ci, memo>>
            /\ objs' = (IF Call.op \in {"next", "index"} THEN Given(objs, Len(objs) + 1) ELSE objs)

TNext == NextCase \/ Judged \/ OnObject \/ Making \/ Bare \/ SkipDead
TSpec == TInit /\ [][TNext]_tvars
TView == <<ci, li>>

(* Every call of every case was taken. *)
RECURSIVE Total(_)
Total(k) == IF k = 0 THEN 0 ELSE 1 + Len(Trace[k].calls) + Total(k - 1)
Accepted == TLCGet("stats").diameter - 1 = Total(Len(Trace)) /\ PrintT(<<"DONE", Len(Trace), TLCGet("stats").diameter - 1>>)
=============================================================================
