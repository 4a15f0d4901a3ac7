------------------------------ MODULE MC_Threads -----------------------------
(* Readers in threads of their own.  A call is the operations it makes on its   *)
(* reader's stream, one step each; the steps of different threads come in any   *)
(* order.  Each reader has its own log, its own stream and its own pieces, so a *)
(* call answers what it would answer alone, at the step that ends it.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

VARIABLES pos,      \* per thread: where its stream stands
          pieces,   \* per thread: what the current call has read
          kept,     \* per thread: the place that the call returns its stream to
          step,     \* per thread: calls answered, operations made of the current one
          rd, out,  \* the readers and the last answer, as in PmlReader
          scratch,  \* what the details would be if all readers used one buffer for them
          hist, left
mvars == <<pos, pieces, kept, step, rd, out, scratch, hist, left>>

Number(s) == CHOOSE n \in 0..4096 : ToString(n) = s
Mode     == IOEnv.VERIF_MODE                      \* "all": nothing is recorded; "export": the order of the threads is
Count3   == Number(IOEnv.VERIF_THREADS)
Switches == Number(IOEnv.VERIF_DEPTH)             \* how often another thread may take over, when exporting
Threads  == 1..Count3

NEv == 2
Options == [st |-> TRUE, de |-> TRUE]
TheLib == [f \in Threads |-> [status |-> "open", n |-> NEv, events |-> [i \in 1..NEv |-> [wf |-> TRUE]]]]
R == INSTANCE PmlReader WITH lib <- TheLib

(* The calls of a thread, and the event each is about.                          *)
Calls == IF Mode = "export" THEN <<"next">> ELSE <<"next", "index", "next">>
EventOf(k) == IF Calls[k] = "index" THEN 1 ELSE Cardinality({j \in 1..k : Calls[j] = "next"})

(* A record: head, call stack, details, and (event 1) an extra block elsewhere. *)
After == [head |-> "stack", stack |-> "details", details |-> "beyond", size |-> "extra", extra |-> "beyond", beyond |-> "beyond"]
Program(i) == <<"to head", "read", "read", "read">> \o (IF i = 1 THEN <<"tell", "to size", "read", "read", "back">> ELSE <<>>)
Whole(i) == IF i = 1 THEN <<"head", "stack", "details", "size", "extra">> ELSE <<"head", "stack", "details">>
At(f, i, what) == [f |-> f, i |-> i, what |-> what]
Read(f, p) == At(f, p.i, p.what)                  \* every byte of a log says where it is from

Done(t) == step[t].call > Len(Calls)
Now(t) == EventOf(step[t].call)
Op(t) == Program(Now(t))[step[t].op]
Ends(t) == step[t].op = Len(Program(Now(t)))

MInit == /\ pos = [t \in Threads |-> At(t, 1, "beyond")] /\ pieces = [t \in Threads |-> <<>>] /\ kept = pos
         /\ step = [t \in Threads |-> [call |-> 1, op |-> 1]]
         /\ rd = [t \in Threads |-> [f |-> t, o |-> Options, cur |-> 0, live |-> TRUE]] /\ out = R!Opened
         /\ scratch = <<>> /\ hist = <<>> /\ left = Switches

(* What is answered: the event whose pieces these are, all of it.               *)
Answer(ps) == IF ps # <<>> /\ ps = [j \in 1..Len(Whole(ps[1].i)) |-> At(ps[1].f, ps[1].i, Whole(ps[1].i)[j])]
              THEN R!One(ps[1].f, ps[1].i, Options) ELSE [k |-> "mixed", pieces |-> ps]
Made(t) == IF Op(t) = "read" THEN Append(pieces[t], Read(t, pos[t])) ELSE pieces[t]

Step(t) ==
  /\ ~Done(t)
  /\ IF Mode = "export"
     THEN /\ hist # <<>> /\ hist[Len(hist)] # t /\ ~Done(hist[Len(hist)]) => left > 0
          /\ left' = (IF hist # <<>> THEN IF hist[Len(hist)] # t /\ ~Done(hist[Len(hist)]) THEN left - 1 ELSE left ELSE left)
          /\ hist' = Append(hist, t)
     ELSE UNCHANGED <<left, hist>>
  /\ pos' = [pos EXCEPT ![t] = CASE Op(t) = "to head" -> At(t, Now(t), "head")
                                 [] Op(t) = "to size" -> At(t, Now(t), "size")
                                 [] Op(t) = "back"    -> kept[t]
                                 [] Op(t) = "read"    -> [@ EXCEPT !.what = After[@]]
                                 [] OTHER             -> @]
  /\ kept' = IF Op(t) = "tell" THEN [kept EXCEPT ![t] = pos[t]] ELSE kept
  /\ scratch' = IF Op(t) = "read" /\ pos[t].what = "details" THEN <<Read(t, pos[t])>> ELSE scratch
  /\ IF Ends(t)
     THEN /\ out' = Answer(Made(t))
          /\ rd' = IF Calls[step[t].call] = "next" THEN [rd EXCEPT ![t].cur = @ + 1] ELSE rd
          /\ pieces' = [pieces EXCEPT ![t] = <<>>]
          /\ step' = [step EXCEPT ![t] = [call |-> @.call + 1, op |-> 1]]
          \* the order of the steps would show in the answer if the buffer were shared
          /\ IF scratch' # <<At(t, Now(t), "details")>> THEN TLCSet(1, TRUE) ELSE TRUE
     ELSE /\ UNCHANGED <<out, rd>>
          /\ pieces' = [pieces EXCEPT ![t] = Made(t)]
          /\ step' = [step EXCEPT ![t].op = @ + 1]
MNext == \E t \in Threads : Step(t)
MSpec == MInit /\ TLCSet(1, FALSE) /\ [][MNext]_mvars

(* Every step is one that PmlReader allows of one reader, or does not show.     *)
Linear == [][\E t \in Threads : R!Next1(t) \/ R!Index(t, 0)]_<<rd, out>>
(* A thread has what is its own, from its own log.                              *)
Own == \A t \in Threads : /\ pos[t].f = t /\ kept[t].f = t
                          /\ \A j \in DOMAIN pieces[t] : pieces[t][j] = At(t, Now(t), Whole(Now(t))[j])
                          /\ rd[t].cur = Cardinality({j \in 1..(step[t].call - 1) : Calls[j] = "next"})
NeverMixed == out.k # "mixed"
Export == (Mode = "export" /\ \A t \in Threads : Done(t)) => PrintT(<<"S", hist>>)
(* The interleavings tell a shared buffer from buffers of their own.            *)
Telling == TLCGet(1)
=============================================================================
