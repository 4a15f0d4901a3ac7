------------------------------ MODULE MC_Capture ------------------------------
(* Exhaustive exploration of PmlWriter in three directions: which crash leaves *)
(* which file, where the tables lie, and what is captured in which order.      *)
EXTENDS PmlWriter

VARIABLES step
Number(s) == CHOOSE n \in 0..4096 : ToString(n) = s
Mode   == IOEnv.VERIF_MODE
Stride == Number(IOEnv.VERIF_STRIDE)
Phase  == Number(IOEnv.VERIF_PHASE)
Depth  == Number(IOEnv.VERIF_DEPTH)

Bit(x) == IF x THEN 1 ELSE 0
LayNumber(l) == Bit(l.pv = 8) + 2 * Bit(l.fill = 0) + 4 * Bit(l.gap = 0) + 8 * Bit(l.deferred) + 16 * Bit(l.reversed) + 32 * Bit(l.shared)
Chosen == {l \in Layout : LayNumber(l) % Stride = (Phase % Stride)}
Some == [pv |-> 8, fill |-> 170, gap |-> 3, deferred |-> TRUE, reversed |-> TRUE, shared |-> FALSE]

CInit == /\ lay \in (IF Mode = "crash" THEN {Some, [Some EXCEPT !.pv = 4, !.fill = 0, !.gap = 0]} ELSE Chosen)
         /\ con = Nothing /\ body = <<>> /\ where = [t \in {} |-> 0] /\ done = {} /\ step = 0
All == UNCHANGED <<lay, con, body, where>> /\ Tables \subseteq DOMAIN where /\ done = {} /\ done' = Fields
(* A fixed capture, for the modes that vary something else. *)
Script == CASE step = 0 -> Discover(3) [] step = 1 -> Discover(1) [] step = 2 -> Log(1, 1, 1) [] step = 3 -> Log(3, 2, 1) [] step = 4 -> Discover(2)
            [] step = 5 -> Log(2, 3, 2) [] step = 6 -> Log(3, 1, 4) [] step = 7 -> Finish
TableOrder == <<"icons", "processes", "index", "hosts", "strings">>
NextTable == \E i \in DOMAIN TableOrder : TableOrder[i] \notin DOMAIN where /\ (\A j \in 1..(i - 1) : TableOrder[j] \in DOMAIN where) /\ Write(TableOrder[i])
CNext ==
  /\ step' = step + 1
  /\ CASE Mode = "crash"  -> IF step < 8 THEN Script ELSE NextTable \/ \E f \in Fields : FillIn(f)
       [] Mode = "layout" -> IF step < 8 THEN Script ELSE (\E t \in Tables : Write(t)) \/ All
       [] OTHER -> \/ step < Depth /\ (\E k \in 1..3 : Discover(k) \/ \E t \in 1..3, at \in 1..(Len(con.events) + 1) : Log(k, t, at))
                   \/ Finish \/ NextTable \/ All
CSpec == CInit /\ [][CNext]_<<wvars, step>>
(* step only counts the capture *)
CView == wvars

Right == LET r == Read IN Openable(r) /\ Faithful(r)
Short == Mode = "crash" => NeverShort
Export == (Mode = "crash" \/ done = Fields) => PrintT(<<"F", BytesHex(OnDisk)>>)
=============================================================================
