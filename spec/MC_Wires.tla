------------------------------ MODULE MC_Wires -------------------------------
(* Exhaustive check of EventDetail over the wires of one family and everything *)
(* one change away from them, and the export of them all.                      *)
EXTENDS Wires

VARIABLES w, d
FamilyName == IOEnv.VERIF_FAMILY
(* Neighbours are explored around every STRIDE-th wire (0: around none). *)
Number(s) == CHOOSE n \in 0..4096 : ToString(n) = s
Stride == Number(IOEnv.VERIF_STRIDE)
Phase  == Number(IOEnv.VERIF_PHASE)
Mix(s) == FoldLeft(LAMBDA a, x : (a * 31 + x) % 65521, 7, s)
Near   == IF Stride = 0 THEN FALSE ELSE (Mix(w.b) + Mix(w.x.b) + w.op) % Stride = Phase

HostsRead == [i \in DOMAIN NetHosts |-> [ip |-> NetHosts[i].ip, name |-> Say(NetHosts[i].u)]]
PortsRead == [i \in DOMAIN NetPorts |-> [port |-> NetPorts[i].port, tcp |-> NetPorts[i].tcp # 0, name |-> Say(NetPorts[i].u)]]
ClassName == EventClassName[w.c]
Read == Detail(ClassName, w.op, w.b, w.pv, w.x.has, w.x.b, TidUsed, HostsRead, PortsRead)

Init == w \in Family(FamilyName) /\ d = 0
Next == d = 0 /\ Near /\ d' = 1 /\ w' \in Neighbours(w)
Spec == Init /\ [][Next]_<<w, d>>

(* A wire means what was written. *)
RoundTrip == w.known => Read = w.m
(* Whatever is read from any wire is either refused or a complete event; with  *)
(* a complete event no detail is named twice.                                  *)
Total == LET r == Read IN r.wf => /\ r.op # ""
                                  /\ \A i, j \in DOMAIN r.det : i # j => r.det[i].k # r.det[j].k
                                  /\ r.cat \in {"", "Read", "Write", "Read Metadata", "Write Metadata"}
Export == PrintT(<<"W", w.c, w.op, w.pv, BytesHex(w.b), IF w.x.has THEN "+" \o BytesHex(w.x.b) ELSE "-", IF w.known THEN 1 ELSE 0>>)
NetTablesOut == PrintT(<<"HOSTS", [i \in DOMAIN NetHosts |-> <<BytesHex(NetHosts[i].ip), BytesHex(Wide(NetHosts[i].u))>>],
                         [i \in DOMAIN NetPorts |-> <<NetPorts[i].port, NetPorts[i].tcp, BytesHex(Wide(NetPorts[i].u))>>]>>)
ASSUME NetTablesOut
=============================================================================
