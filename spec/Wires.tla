-------------------------------- MODULE Wires --------------------------------
(* The writer's side of EventDetail: event details as they are laid out, each  *)
(* with what it means, for exhaustive enumeration.  Meanings are written down  *)
(* directly, not by way of the decoding operators.                             *)
EXTENDS EventDetail

(***************************************************************************)
(* Building blocks                                                         *)
(***************************************************************************)
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
W16(v) == <<v % 256, v \div 256>>
W32(v) == LE(v, 4)
Fill(n, s) == [i \in 1..n |-> (s + 37 * i) % 256]             \* n bytes of no particular value
Zeros(n)  == [i \in 1..n |-> 0]
Wide(u)   == Flat([i \in DOMAIN u |-> W16(u[i])])
Say(u)    == FoldLeft(LAMBDA a, c : a \o CT(c), "", u)        \* no NUL, surrogates in pairs
BeforeNul(u) == LET z == {i \in DOMAIN u : u[i] = 0} IN
                IF z = {} THEN u ELSE SubSeq(u, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
Code(table, name) == CHOOSE k \in DOMAIN table : table[k] = name
Patch(b, at, new) == SubSeq(b, 1, at) \o new \o SubSeq(b, at + Len(new) + 1, Len(b))

(* A counted text: info word, bytes, reading. *)
Txt(u, one) == [i |-> IF one THEN 32768 + Len(u) ELSE Len(u), b |-> IF one THEN u ELSE Wide(u), s |-> Say(BeforeNul(u))]
K1 == <<107>>
CRoot == <<67, 58, 92>>
Emoji == <<97, 233, 55357, 56832>>
Cut == <<97, 0, 98>>
TextsOne == {Txt(<<>>, TRUE), Txt(K1, TRUE), Txt(CRoot, TRUE)}
TextsWide == {Txt(<<>>, FALSE), Txt(K1, FALSE), Txt(Emoji, FALSE), Txt(Cut, FALSE), Txt(<<120, 0>>, FALSE), Txt(<<0>>, FALSE)}
Texts == TextsOne \cup TextsWide
FewTexts == {Txt(CRoot, TRUE), Txt(Emoji, FALSE)}
Key == Txt(K1, TRUE)

(* The families take a parameter only so that TLC does not evaluate them all.  *)
(* A wire: class, code, pointer size, detail bytes, extra bytes, the places of *)
(* its lengths (for perturbation), and its meaning.                            *)
NoX == [has |-> FALSE, b |-> <<>>]
X(b) == [has |-> TRUE, b |-> b]
Wire(c, op, pv, b, x, lens, m) == [c |-> c, op |-> op, pv |-> pv, b |-> b, x |-> x, lens |-> lens, m |-> m, known |-> TRUE]
Stress(w) == [w EXCEPT !.known = FALSE]
PVs == {4, 8}

(***************************************************************************)
(* Network                                                                 *)
(***************************************************************************)
Addr(ip, v4, v6) == [ip |-> ip, v4 |-> v4, v6 |-> v6]
NetHosts == <<[ip |-> <<1, 2, 3, 4>> \o Zeros(12), u |-> <<97, 108>>],
              [ip |-> Zeros(16), u |-> <<>>],
              [ip |-> <<254, 128>> \o Zeros(13) \o <<1>>, u |-> Emoji],
              [ip |-> <<1, 2, 3, 4>> \o Zeros(12), u |-> <<98, 101>>],
              [ip |-> Zeros(10) \o <<255, 255, 1, 2, 3, 4>>, u |-> <<109>>]>>
NetPorts == <<[port |-> 80, tcp |-> 1, u |-> <<104, 116>>], [port |-> 53, tcp |-> 0, u |-> <<100>>],
              [port |-> 80, tcp |-> 0, u |-> <<113>>], [port |-> 0, tcp |-> 1, u |-> <<122>>],
              [port |-> 80, tcp |-> 256, u |-> <<119>>], [port |-> 20480, tcp |-> 1, u |-> <<>>]>>
Addrs == {Addr(<<1, 2, 3, 4>> \o Zeros(12), "be", "be"),
          Addr(<<1, 2, 3, 5>> \o Zeros(12), "1.2.3.5", "102:305:0:0:0:0:0:0"),
          Addr(Zeros(16), "0.0.0.0", "0:0:0:0:0:0:0:0"),
          Addr(<<254, 128>> \o Zeros(13) \o <<1>>, Say(Emoji), Say(Emoji)),
          Addr(<<254, 128>> \o Zeros(13) \o <<2>>, "254.128.0.0", "fe80:0:0:0:0:0:0:2"),
          Addr(Zeros(10) \o <<255, 255, 1, 2, 3, 4>>, "m", "m"),
          Addr(Zeros(10) \o <<255, 255, 9, 8, 7, 6>>, "0.0.0.0", "0:0:0:0:0:ffff:908:706"),
          Addr(<<255, 255, 255, 255>> \o Zeros(12), "255.255.255.255", "ffff:ffff:0:0:0:0:0:0"),
          Addr([i \in 1..16 |-> IF i % 2 = 1 THEN 0 ELSE i], "0.2.0.4", "2:4:6:8:a:c:e:10")}
Port(p, tcp, udp) == [p |-> p, tcp |-> tcp, udp |-> udp]
PortsUsed == {Port(80, "w", "q"), Port(53, "53", "d"), Port(0, "z", "0"), Port(20480, "", "20480"), Port(443, "443", "443"), Port(65535, "65535", "65535")}
Zt(u) == Wide(u \o <<0>>)
KVs == {[b |-> <<>>, d |-> <<>>],
        [b |-> <<0, 0>>, d |-> <<>>],
        [b |-> Zt(K1) \o Zt(Emoji) \o <<0, 0>>, d |-> <<DStr("k", Say(Emoji))>>],
        [b |-> Zt(K1) \o Wide(Emoji), d |-> <<DStr("k", Say(Emoji))>>],
        [b |-> Zt(K1) \o Zt(<<49>>) \o Zt(<<109>>) \o Zt(<<50>>) \o <<0, 0>>, d |-> <<DStr("k", "1"), DStr("m", "2")>>],
        [b |-> Zt(K1) \o Zt(<<49>>) \o Zt(<<109>>) \o <<0, 0>>, d |-> <<DStr("k", "1")>>],
        [b |-> Zt(K1) \o Zt(<<49>>) \o Zt(K1) \o Zt(<<50>>) \o <<0, 0>>, d |-> <<DStr("k", "2")>>],
        [b |-> Zt(K1) \o Zt(<<49>>) \o <<0, 0>> \o Zt(<<109>>) \o Zt(<<50>>), d |-> <<DStr("k", "1")>>]}
NetWire(op, flags, a, c, p, q, kv) ==
  LET tcp == (flags \div 4) % 2 = 1
      at(x, bit) == IF bit = 1 THEN x.v4 ELSE x.v6
      pt(x) == IF tcp THEN x.tcp ELSE x.udp
  IN  Wire(5, op, 8, W16(flags) \o Fill(2, op) \o Fill(4, flags) \o a.ip \o c.ip \o W16(p.p) \o W16(q.p) \o kv.b, NoX,
           <<>>,
           R(TRUE, (IF tcp THEN "TCP " ELSE "UDP ") \o NetworkOp[op],
             at(a, flags % 2) \o ":" \o pt(p) \o " -> " \o at(c, (flags \div 2) % 2) \o ":" \o pt(q), "",
             <<DInt("Length", Fill(4, flags))>> \o kv.d))
A1 == CHOOSE a \in Addrs : a.v4 = "1.2.3.5"
P1 == CHOOSE p \in PortsUsed : p.p = 443
KV0 == CHOOSE v \in KVs : v.b = <<>>
NetWires(all) ==
  {NetWire(op, f, A1, A1, P1, P1, KV0) : op \in DOMAIN NetworkOp, f \in 0..7}
  \cup {NetWire(2, f, a, c, P1, P1, KV0) : f \in 0..7, a \in Addrs, c \in Addrs}
  \cup {NetWire(3, f, A1, a, p, q, KV0) : f \in {0, 1, 4, 7}, p \in PortsUsed, q \in PortsUsed, a \in {A1}}
  \cup {NetWire(4, f, A1, A1, P1, P1, kv) : f \in {0, 3, 4, 7}, kv \in KVs}
  \cup {NetWire(4, f + g, A1, A1, P1, P1, KV0) : f \in 0..7, g \in {8, 16, 32, 64, 128, 256, 512, 1024, 4096, 32768}}

(***************************************************************************)
(* Process and thread                                                      *)
(***************************************************************************)
PCode(n) == Code(ProcessOp, n)
PWire(op, pv, b, lens, path, det) == Wire(1, PCode(op), pv, b, NoX, lens, R(TRUE, op, path, "", det))
Created(op, s1, s2, p, c) ==
  PWire(op, 8, Fill(4, 1) \o Fill(4, 2) \o Fill(36, 3) \o <<s1, s2>> \o W16(p.i) \o W16(c.i) \o Fill(2, 9) \o Fill(s1, 5) \o Fill(s2, 6) \o p.b \o c.b,
        <<<<"b", 44, 1>>, <<"b", 45, 1>>, <<"b", 46, 2>>, <<"b", 48, 2>>>>, p.s,
        <<DInt("PID", Fill(4, 2)), DStr("Command line", c.s)>>)
Envs == {[b |-> <<>>, l |-> <<>>],
         [b |-> Zt(K1) \o <<0, 0>>, l |-> <<"k">>],
         [b |-> Zt(K1), l |-> <<"k">>],
         [b |-> Wide(K1), l |-> <<"k">>],
         [b |-> Zt(K1) \o Zt(Emoji) \o <<0, 0>>, l |-> <<"k", Say(Emoji)>>],
         [b |-> Zt(K1) \o Zt(Emoji) \o Zt(K1) \o <<0, 0>>, l |-> <<"k", Say(Emoji), "k">>],
         [b |-> Zt(K1) \o Zt(Emoji) \o Wide(<<98, 99>>), l |-> <<"k", Say(Emoji), "bc">>],
         [b |-> Zt(K1) \o <<0, 0>> \o Zt(Emoji) \o <<0, 0>>, l |-> <<"k">>]}
Started(c, d, e, tail) ==
  PWire("Process_Start", 8, Fill(4, 1) \o W16(c.i) \o W16(d.i) \o W32(Len(e.b) \div 2) \o c.b \o d.b \o e.b \o tail,
        <<<<"b", 4, 2>>, <<"b", 6, 2>>, <<"b", 8, 4>>>>, "",
        <<DInt("Parent PID", Fill(4, 1)), DStr("Command line", c.s), DStr("Current directory", d.s), DList("Environment", e.l)>>)
Exited(op, b) ==
  PWire(op, 8, b, <<>>, "",
        <<DInt("Exit Status", SubSeq(b, 1, 4)), DInt("User Time", SubSeq(b, 13, 20)), DInt("Kernel Time", SubSeq(b, 5, 12)),
          DInt("Private Bytes", SubSeq(b, 37, 44)), DInt("Peak Private Bytes", SubSeq(b, 45, 52)),
          DInt("Working Set", SubSeq(b, 21, 28)), DInt("Peak Working Set", SubSeq(b, 29, 36))>>)
Image(pv, base, p) ==
  PWire("Load_Image", pv, base \o Fill(4, 2) \o W16(p.i) \o Fill(2, 3) \o p.b, <<<<"b", pv + 4, 2>>>>, p.s,
        <<DInt("Image Base", base), DInt("Image Size", Fill(4, 2))>>)
TidUsed == <<57, 48, 0, 128>>         \* the thread id of every exported event
ProcWires(all) ==
  {Created(op, s1, s2, p, c) : op \in {"Process_Defined", "Process_Create"}, s1 \in {0, 12}, s2 \in {0, 8}, p \in Texts, c \in Texts}
  \cup {Created("Process_Create", s1, s2, p, Key) : s1 \in {0, 1, 8, 12, 28, 127, 128, 255}, s2 \in {0, 1, 12, 28, 128, 255}, p \in FewTexts}
  \cup {Started(c, d, e, t) : c \in Texts, d \in Texts, e \in {[b |-> <<>>, l |-> <<>>], [b |-> Zt(K1) \o <<0, 0>>, l |-> <<"k">>]}, t \in {<<>>, <<65, 0>>}}
  \cup {Started(c, d, e, t) : c \in FewTexts, d \in FewTexts, e \in Envs, t \in {<<>>, <<65, 0>>, <<66>>}}
  \cup {Exited(op, b) : op \in {"Process_Exit", "Process_Statistics"},
                        b \in {Fill(52, 1), Zeros(52), [i \in 1..52 |-> 255]} \cup {[Zeros(52) EXCEPT ![i] = 128] : i \in 1..52} \cup {[Zeros(52) EXCEPT ![i] = 1] : i \in 1..52}}
  \cup {Image(pv, base, p) : pv \in {4}, base \in {Fill(4, 0), Zeros(4), <<0, 0, 0, 128>>}, p \in Texts}
  \cup {Image(pv, base, p) : pv \in {8}, base \in {Fill(8, 0), Zeros(8), <<0, 0, 0, 0, 0, 0, 0, 128>>}, p \in Texts}
  \cup {PWire("Thread_Create", 8, b \o t, <<>>, "", <<DInt("Thread ID", b)>>) : b \in {Fill(4, 0), Zeros(4), <<0, 0, 0, 128>>, <<255, 255, 255, 255>>}, t \in {<<>>, <<1, 2, 3, 4>>}}
  \cup {PWire("Thread_Exit", 8, b, <<>>, "", <<DInt("Thread ID", TidUsed), DInt("User Time", SubSeq(b, 13, 20)), DInt("Kernel Time", SubSeq(b, 5, 12))>>) :
          b \in {Fill(20, 1), Zeros(20), [i \in 1..20 |-> 255], Fill(28, 9)} \cup {[Zeros(20) EXCEPT ![i] = 128] : i \in 1..20}}

(***************************************************************************)
(* Registry keys                                                           *)
(***************************************************************************)
RCode(n) == Code(RegistryOp, n)
RWire(op, b, x, lens, path, cat, det) == Wire(2, RCode(op), 8, b, x, lens, R(TRUE, op, path, cat, det))
(* A named block: an announced number of units over what is there. *)
Named == {[n |-> 2 * n, u |-> u, s |-> Say(BeforeNul(SubSeq(u, 1, Min2(n, Len(u)))))] :
            n \in 0..5, u \in {<<>>, K1, <<97, 98, 99>>, Cut, <<97, 98, 0>>}}
          \cup {[n |-> 8, u |-> Emoji, s |-> Say(Emoji)], [n |-> 8, u |-> Emoji \o K1, s |-> Say(Emoji)]}
QueryOp(op, path, class, x, lens, det) ==
  LET head == W16(path.i) \o Fill(2, 1) \o Fill(4, 2) \o (IF op = "RegEnumKey" THEN Fill(4, 3) ELSE <<>>) \o W32(class)
  IN  RWire(op, head \o path.b, x, lens \o <<<<"b", 0, 2>>>>, path.s, "Read",
            (IF op = "RegEnumKey" THEN <<DInt("Index", Fill(4, 3))>> ELSE <<DStr("Query", KeyInfoClass[class])>>) \o det)
KeyOps == {"RegQueryKey", "RegEnumKey"}
Nums(b, ks) == [i \in DOMAIN ks |-> DInt(ks[i], SubSeq(b, 4 * i - 3, 4 * i))]
KeyWires(all) ==
  {QueryOp(op, p, c, NoX, <<>>, <<DInt("Length", Fill(4, 2))>>) : op \in KeyOps, p \in Texts, c \in 0..9}
  \cup {QueryOp(op, Key, 3, X(W32(m.n) \o Wide(m.u)), <<<<"x", 0, 4>>>>, <<DStr("Name", m.s)>>) : op \in KeyOps, m \in Named}
  \cup {QueryOp(op, Key, 0, X(Fill(8, 5) \o Fill(4, 6) \o W32(m.n) \o Wide(m.u)), <<<<"x", 12, 4>>>>,
                <<DInt("LastWriteTime", Fill(8, 5)), DInt("TitleIndex", Fill(4, 6)), DStr("Name", m.s)>>) : op \in KeyOps, m \in Named}
  \cup {QueryOp(op, Key, 1, X(Fill(8, 5) \o Fill(12, 6) \o W32(m.n) \o Wide(m.u)), <<<<"x", 20, 4>>>>,
                <<DInt("LastWriteTime", Fill(8, 5))>> \o Nums(Fill(12, 6), <<"TitleIndex", "ClassOffset", "ClassLength">>) \o <<DStr("Name", m.s)>>) :
          op \in KeyOps, m \in Named}
  \cup {QueryOp(op, p, 2, X(Fill(8, 5) \o Fill(36, 6) \o t), <<>>,
                <<DInt("LastWriteTime", Fill(8, 5))>> \o Nums(Fill(36, 6), <<"TitleIndex", "ClassOffset", "ClassLength", "SubKeys", "MaxNameLen", "MaxClassLen",
                                                                          "Values", "MaxValueNameLen", "MaxValueDataLen">>)) :
          op \in KeyOps, p \in FewTexts, t \in {<<>>, Wide(K1)}}
  \cup {QueryOp(op, p, 4, X(Fill(8, 5) \o Fill(24, 6) \o t), <<>>,
                <<DInt("LastWriteTime", Fill(8, 5))>> \o Nums(Fill(24, 6), <<"TitleIndex", "SubKeys", "MaxNameLen", "Values", "MaxValueNameLen", "MaxValueDataLen">>)) :
          op \in KeyOps, p \in FewTexts, t \in {<<>>, Wide(K1)}}
  \cup {QueryOp(op, p, 5, X(Fill(4, 6) \o t), <<>>, <<DInt("UserFlags", Fill(4, 6))>>) : op \in KeyOps, p \in FewTexts, t \in {<<>>, Fill(8, 1)}}
  \cup {QueryOp(op, p, 7, X(Fill(4, 6) \o t), <<>>, <<DInt("HandleTags", Fill(4, 6))>>) : op \in KeyOps, p \in FewTexts, t \in {<<>>, Fill(8, 1)}}
  \cup {QueryOp(op, p, c, X(t), <<>>, <<>>) : op \in KeyOps, p \in FewTexts, c \in {6, 8, 9}, t \in {<<>>, Fill(4, 1), Fill(12, 1)}}

(* Masks of one or two bits, all but one, and the documented combinations. *)
Bit4(i) == [k \in 1..4 |-> IF (i \div 8) + 1 = k THEN 2 ^ (i % 8) ELSE 0]
Or(a, b) == [i \in DOMAIN a |-> (a[i] + b[i])]                 \* of disjoint masks
Ones == {Bit4(i) : i \in 0..31}
Word(h) == h                                                    \* masks given as bytes
Combos == {<<25, 0, 2, 0>>, <<6, 0, 2, 0>>, <<63, 0, 15, 0>>, <<0, 0, 0, 2>>, <<0, 0, 0, 128>>, <<0, 0, 0, 64>>, <<0, 0, 0, 32>>, <<0, 0, 0, 16>>,
           <<0, 0, 0, 240>>, <<255, 255, 255, 255>>, <<137, 0, 18, 0>>, <<22, 1, 18, 0>>, <<160, 0, 18, 0>>, <<255, 1, 31, 0>>, <<0, 0, 0, 0>>,
           <<255, 1, 31, 2>>, <<25, 2, 2, 0>>, <<25, 1, 2, 0>>, <<63, 3, 15, 0>>, <<24, 0, 2, 0>>, <<0, 0, 16, 192>>, <<0, 4, 0, 0>>, <<0, 0, 224, 15>>}
OpenKey(op, path, mask, x, cat, det) ==
  RWire(op, W16(path.i) \o Fill(2, 1) \o mask \o path.b, x, <<<<"b", 0, 2>>>>, path.s, cat, det)
MaxAllowed == <<0, 0, 0, 2>>
OpenOps == {"RegOpenKey", "RegCreateKey"}
Disp(d) == CASE d = 1 -> <<DStr("Disposition", "REG_CREATED_NEW_KEY")>> [] d = 2 -> <<DStr("Disposition", "REG_OPENED_EXISTING_KEY")>> [] OTHER -> <<>>
OpenWires(all) ==
  {OpenKey(op, p, Zeros(4), x, "Read", <<>>) : op \in OpenOps, p \in Texts, x \in {NoX, X(Fill(4, 1) \o W32(1)), X(Zeros(8))}}
  \cup {OpenKey(op, p, <<25, 0, 2, 0>>, X(g \o W32(d) \o t), IF d = 1 THEN "Write" ELSE "Read", <<DStr("Desired Access", "Read")>> \o Disp(d)) :
          op \in OpenOps, p \in FewTexts, g \in {Zeros(4), <<6, 0, 2, 0>>}, d \in {0, 1, 2, 3, 257, 65537}, t \in {<<>>, Fill(4, 7)}}
  \cup {OpenKey(op, p, MaxAllowed, X(g[1] \o W32(d)), IF d = 1 THEN "Write" ELSE "Read",
                <<DStr("Desired Access", "Maximum Allowed"), DStr("Granted Access", g[2])>> \o Disp(d)) :
          op \in OpenOps, p \in FewTexts, d \in 0..3,
          g \in {<<<<25, 0, 2, 0>>, "Read">>, <<<<63, 0, 15, 0>>, "All Access">>, <<Zeros(4), "None 0x0">>, <<<<0, 0, 0, 4>>, "None 0x4000000">>, <<<<1, 0, 0, 0>>, "Query Value">>}}
  \cup {OpenKey(op, p, MaxAllowed, NoX, "Read", <<DStr("Desired Access", "Maximum Allowed")>>) : op \in OpenOps, p \in FewTexts}
  \cup {Stress(OpenKey(op, Key, m, x, "", <<>>)) : op \in OpenOps, m \in Ones \cup Combos, x \in {NoX, X(<<25, 0, 2, 0>> \o W32(1)), X(<<0, 0, 0, 2>> \o W32(2))}}

SetInfo(path, class, len, v) ==
  LET name == CASE class = 0 -> "KeyWriteTimeInformation" [] class = 1 -> "KeyWow64FlagsInformation" [] class = 5 -> "KeySetHandleTagsInformation"
                [] OTHER -> "<Unknown: " \o ToString(class) \o ">"
      d == IF len = 0 THEN <<>> ELSE CASE class = 0 -> <<DInt("LastWriteTime", SubSeq(v, 1, 8))>> [] class = 1 -> <<DInt("Wow64Flags", SubSeq(v, 1, 4))>>
                                       [] class = 5 -> <<DInt("HandleTags", SubSeq(v, 1, 4))>> [] OTHER -> <<>>
  IN  RWire("RegSetInfoKey", W16(path.i) \o Fill(2, 1) \o W32(class) \o Fill(4, 2) \o W16(len) \o Fill(2, 3) \o path.b \o v, NoX, <<<<"b", 0, 2>>>>, path.s, "Write Metadata",
            <<DStr("KeySetInformationClass", name), DInt("Length", W16(len))>> \o d)
SetWires(all) ==
  {SetInfo(p, c, n, v) : p \in Texts, c \in (0..9) \cup {255, 256, 261, 65541}, n \in {0, 4, 8, 65535}, v \in {Fill(8, 77), <<0, 128, 62, 213, 222, 177, 157, 1>>}}
OtherKey(op) == CASE op \in {"RegDeleteKey", "RegDeleteValue"} -> "Write"
                  [] op = "RegQueryMultipleValueKey" -> "Read" [] op = "RegSetKeySecurity" -> "Write Metadata" [] op = "RegQueryKeySecurity" -> "Read Metadata" [] OTHER -> ""
PlainOps == {RegistryOp[k] : k \in DOMAIN RegistryOp}
            \ ({"RegQueryValue", "RegEnumValue", "RegSetValue", "RegLoadKey", "RegRenameKey", "RegSetInfoKey"} \cup OpenOps \cup KeyOps)
PlainWires(all) ==
  {RWire(op, W16(p.i) \o p.b \o t, x, <<<<"b", 0, 2>>>>, p.s, OtherKey(op), <<>>) : op \in PlainOps, p \in Texts, t \in {<<>>, <<65, 0>>}, x \in {NoX, X(Fill(8, 1))}}
  \cup {RWire(op, W16(p.i) \o W16(q.i) \o p.b \o q.b \o t, x, <<<<"b", 0, 2>>, <<"b", 2, 2>>>>, p.s, IF op = "RegRenameKey" THEN "Write" ELSE "",
              <<DStr(IF op = "RegLoadKey" THEN "Hive Path" ELSE "New Name", q.s)>>) :
          op \in {"RegLoadKey", "RegRenameKey"}, p \in Texts, q \in Texts, t \in {<<>>, <<65, 0>>}, x \in {NoX}}

(***************************************************************************)
(* Registry values                                                         *)
(***************************************************************************)
(* Data of each type: bytes and what they say. *)
D(t, b, d) == [t |-> t, b |-> b, d |-> d]
One(d) == <<d>>
TypedData ==
  {D(4, b, One(DInt("Data", b))) : b \in {Fill(4, 1), Zeros(4), <<255, 255, 255, 255>>, <<0, 0, 0, 128>>, <<1, 2, 0, 0>>}}
  \cup {D(11, b, One(DInt("Data", b))) : b \in {Fill(8, 1), Zeros(8), [i \in 1..8 |-> 255], <<0, 0, 0, 0, 0, 0, 0, 128>>, <<0, 0, 0, 0, 1, 0, 0, 0>>}}
  \cup {D(3, b, One(DBin("Data", b))) : b \in {<<0>>, <<9>>, <<1, 2, 3>>, Fill(17, 3)}}
  \cup {D(t, b[1], One(DStr("Data", b[2]))) : t \in {1, 2},
          b \in {<<Zt(K1), "k">>, <<Zt(Emoji), Say(Emoji)>>, <<Zt(<<>>), "">>, <<Zt(<<97, 13, 10, 98>>), Say(<<97, 13, 10, 98>>)>>, <<Zt(K1) \o Zt(<<120>>), "k">>}}
  \cup {D(7, b[1], One(DList("Data", b[2]))) :
          b \in {<<Zt(K1) \o <<0, 0>>, <<"k">>>>, <<Zt(K1) \o Zt(Emoji) \o <<0, 0>>, <<"k", Say(Emoji)>>>>, <<Zt(K1) \o Zt(Emoji) \o Zt(K1), <<"k", Say(Emoji), "k">>>>,
                 <<Zt(K1) \o <<0, 0>> \o Zt(Emoji) \o <<0, 0>>, <<"k">>>>, <<Wide(K1), <<"k">>>>}}
  \cup {D(t, b, One(DStr("Data", ""))) : t \in {0, 5, 6, 8, 9, 10}, b \in {<<1, 0, 0, 0>>, Zt(K1)}}
TypeName(t) == CASE t = 0 -> "REG_NONE" [] t = 1 -> "REG_SZ" [] t = 2 -> "REG_EXPAND_SZ" [] t = 3 -> "REG_BINARY" [] t = 4 -> "REG_DWORD"
                 [] t = 5 -> "REG_DWORD_BIG_ENDIAN" [] t = 6 -> "REG_LINK" [] t = 7 -> "REG_MULTI_SZ" [] t = 8 -> "REG_RESOURCE_LIST"
                 [] t = 9 -> "REG_FULL_RESOURCE_DESCRIPTOR" [] t = 10 -> "REG_RESOURCE_REQUIREMENTS_LIST" [] t = 11 -> "REG_QWORD"
                 [] OTHER -> "<Unknown: " \o ToString(t) \o ">"
ValueOp(op, path, class, x, lens, det) ==
  LET head == W16(path.i) \o Fill(2, 1) \o Fill(4, 2) \o (IF op = "RegEnumValue" THEN Fill(4, 3) ELSE <<>>) \o W32(class)
  IN  RWire(op, head \o path.b, x, lens \o <<<<"b", 0, 2>>>>, path.s, "Read", (IF op = "RegEnumValue" THEN <<DInt("Index", Fill(4, 3))>> ELSE <<>>) \o det)
ValueOps == {"RegQueryValue", "RegEnumValue"}
FullInfo(op, path, name, pad, d) ==
  ValueOp(op, path, 1, X(Fill(4, 1) \o W32(d.t) \o W32(20 + Len(name.b) + Len(pad)) \o W32(Len(d.b)) \o W32(Len(name.b)) \o name.b \o pad \o d.b),
          <<<<"x", 4, 4>>, <<"x", 8, 4>>, <<"x", 12, 4>>, <<"x", 16, 4>>>>,
          <<DStr("Name", name.s), DStr("Type", TypeName(d.t)), DInt("Length", W32(Len(d.b)))>> \o d.d)
PartInfo(op, path, d, t) ==
  ValueOp(op, path, 2, X(Fill(4, 1) \o W32(d.t) \o W32(Len(d.b)) \o d.b \o t), <<<<"x", 4, 4>>, <<"x", 8, 4>>>>,
          <<DStr("Type", TypeName(d.t)), DInt("Length", W32(Len(d.b)))>> \o d.d)
NoDataFull(op, t, name) ==
  ValueOp(op, Key, 1, X(Fill(4, 1) \o W32(t) \o W32(20 + Len(name.b)) \o W32(0) \o W32(Len(name.b)) \o name.b), <<>>,
          <<DStr("Name", name.s), DStr("Type", TypeName(t)), DInt("Length", W32(0))>>)
NoDataPart(op, t) == ValueOp(op, Key, 2, X(Fill(4, 1) \o W32(t) \o W32(0)), <<>>, <<DStr("Type", TypeName(t)), DInt("Length", W32(0))>>)
SetValueW(path, t, b, n, cap, det) ==
  RWire("RegSetValue", W16(path.i) \o Fill(2, 1) \o W32(t) \o W32(n) \o W32(cap) \o path.b \o b, NoX, <<<<"b", 0, 2>>, <<"b", 4, 4>>, <<"b", 8, 4>>, <<"b", 12, 4>>>>,
        path.s, "Write", <<DStr("Type", TypeName(t)), DInt("Length", W32(n))>> \o det)
ValueWires(all) ==
  {ValueOp(op, p, c, NoX, <<>>, <<DInt("Length", Fill(4, 2))>>) : op \in ValueOps, p \in Texts, c \in 0..5}
  \cup {FullInfo(op, Key, n, pad, d) : op \in ValueOps, n \in TextsWide, pad \in {<<>>, Fill(2, 3), Fill(5, 1)}, d \in TypedData}
  \cup {PartInfo(op, p, d, <<>>) : op \in ValueOps, p \in FewTexts, d \in TypedData}
  \cup {NoDataFull(op, t, n) : op \in ValueOps, t \in (0..13) \cup {255, 256, 65537}, n \in TextsWide}
  \cup {NoDataPart(op, t) : op \in ValueOps, t \in (0..13) \cup {255, 256, 65537}}
  \cup {ValueOp(op, Key, c, X(Fill(4, 1) \o W32(t) \o Fill(8, 1)), <<>>, <<DStr("Type", TypeName(t))>>) : op \in ValueOps, c \in {0, 3, 4, 5}, t \in (0..13) \cup {256}}
  \cup {SetValueW(p, d.t, d.b, Len(d.b), Len(d.b), d.d) : p \in FewTexts, d \in TypedData}
  \cup {SetValueW(p, t, <<>>, 0, 0, <<>>) : p \in FewTexts, t \in (0..13) \cup {255, 256, 65537}}
  \cup {SetValueW(p, t, Fill(4, 4), 4, 4, <<>>) : p \in FewTexts, t \in {12, 13, 255, 256, 65537}}
(* Data offsets inside the fixed part, the name and behind it; few announced bytes. *)
NameAbcd == [b |-> Wide(<<97, 98, 99, 100>>), s |-> "abcd"]
OddValueWires(all) ==
  {Stress(ValueOp(op, Key, 1, X(Fill(4, 1) \o W32(t) \o W32(off) \o W32(n) \o W32(nl) \o NameAbcd.b \o <<77, 0, 0, 0, 78, 0, 0, 0>>), <<>>, <<>>)) :
     op \in {"RegEnumValue"}, t \in {1, 3, 4, 7, 11}, off \in {0, 4, 8, 16, 20, 22, 24, 28, 30, 32, 36}, n \in {1, 2, 3, 4, 5, 7, 8, 9, 12, 100}, nl \in {0, 4, 8, 10}}
  \cup {Stress(ValueOp(op, Key, 2, X(Fill(4, 1) \o W32(t) \o W32(n) \o b), <<>>, <<>>)) :
     op \in {"RegQueryValue"}, t \in 0..12, n \in 1..9, b \in {<<>>, <<65>>, <<65, 0>>, <<65, 0, 66, 0>>, <<0, 0, 0, 0>>, <<65, 0, 0, 0, 66, 0>>, <<1, 2, 3, 4, 5, 6, 7, 8>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 0>>}}
  \cup {Stress(SetValueW(Key, t, b, n, cap, <<>>)) :
     t \in {1, 3, 4, 7, 11}, n \in 0..9, cap \in {0, 2, 4, 5, 8, 20}, b \in {<<>>, <<65, 0, 66, 0>>, <<65, 0, 0, 0, 66, 0>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 0>>}}

(***************************************************************************)
(* Files                                                                   *)
(***************************************************************************)
FCode(n) == Code(FileOp, n)
(* The request's parameter block with pieces set at given places. *)
Params(pv, pieces) == FoldLeft(LAMBDA a, p : Patch(a, p[1], p[2]), Fill(5 * pv + 20, 200), pieces)
FWire(base, sub, pv, d, p, tail, x, lens, m) ==
  LET dl == 5 * pv + 20 IN
  Wire(3, FCode(base), pv, <<sub>> \o Fill(3, 1) \o d \o W16(p.i) \o Fill(2, 2) \o p.b \o tail, x, Append(lens, <<"b", 4 + dl, 2>>), m)
TailAt(pv, p) == 8 + 5 * pv + 20 + Len(p.b)
At2(pv, k32, k64) == IF pv = 8 THEN k64 ELSE k32
PathF == Txt(CRoot, TRUE)

SidS == {[b |-> <<>>, d |-> <<>>],
         [b |-> <<1, 1, 0, 0, 0, 0, 0, 5, 18, 0, 0, 0>>, d |-> <<DStr("Impersonating", "S-1-5-18")>>],
         [b |-> <<1, 0, 0, 0, 0, 0, 0, 7>>, d |-> <<DStr("Impersonating", "S-1-7")>>],
         [b |-> <<1, 2, 1, 0, 0, 0, 0, 5, 32, 0, 0, 0, 255, 255, 255, 255>>, d |-> <<DStr("Impersonating", "S-1-1099511627781-32-4294967295")>>],
         [b |-> <<2, 1, 0, 0, 0, 0, 0, 5, 18, 0, 0, 0>>, d |-> <<DStr("Impersonating", "")>>],
         [b |-> <<1, 2, 0, 0, 0, 0, 0, 5, 18, 0, 0, 0>>, d |-> <<DStr("Impersonating", "")>>]}
NoSid == CHOOSE s \in SidS : s.b = <<>>
DispText(d) == CASE d = 0 -> "Supersede" [] d = 1 -> "Open" [] d = 2 -> "Create" [] d = 3 -> "OpenIf" [] d = 4 -> "Overwrite" [] d = 5 -> "OverwriteIf" [] OTHER -> "<unknown>"
OpenText(r) == CASE r = 0 -> "Superseded" [] r = 1 -> "Opened" [] r = 2 -> "Created" [] r = 3 -> "Overwritten" [] r = 4 -> "Exists" [] r = 5 -> "DoesNotExist" [] OTHER -> "<unknown>"
CreateW(pv, p, acc, acct, disp, res, sid) ==
  LET d == Params(pv, <<<<At2(pv, 16, 20), Zeros(3) \o <<disp>>>>, <<At2(pv, 20, 28), <<0, 0, 0, 0>>>>, <<At2(pv, 36, 52), <<1, 2, 0, 0>>>>>>)
      cat == CASE res \in {0, 2, 3} -> "Write" [] res \in {1, 4, 5} -> "" [] disp \in {0, 2, 3, 4, 5} -> "Write" [] OTHER -> ""
  IN  FWire("CreateFile", 0, pv, d, p, acc \o <<Len(sid.b)>> \o Fill(3, 4) \o sid.b, IF res < 0 THEN NoX ELSE X(W32(res)),
            <<<<"b", TailAt(pv, p) + 4, 1>>>>,
            R(TRUE, "CreateFile", p.s, cat,
              <<DStr("Desired Access", acct), DStr("Disposition", DispText(disp)), DStr("Options", ""), DStr("Attributes", "n/a"), DStr("ShareMode", "None"),
                IF disp \in {0, 2, 3, 5} THEN DInt("AllocationSize", <<1, 2, 0, 0>>) ELSE DStr("AllocationSize", "n/a")>>
              \o sid.d \o (IF res < 0 THEN <<>> ELSE <<DStr("OpenResult", OpenText(res))>>)))
CreateMasks(pv, acc, opts, attr, share) ==
  Stress(FWire("CreateFile", 0, pv, Params(pv, <<<<At2(pv, 16, 20), opts \o <<1>>>>, <<At2(pv, 20, 28), attr>>, <<At2(pv, 22, 30), share>>>>), PathF,
               acc \o <<0>> \o Fill(3, 4), NoX, <<>>, Bad("CreateFile")))
GenRead == <<0, 0, 0, 128>>
Bit3(i) == SubSeq(Bit4(i), 1, 3)
Bit2(i) == SubSeq(Bit4(i), 1, 2)
CreateWires(all) ==
  {CreateW(pv, PathF, GenRead, "Generic Read", disp, res, NoSid) : pv \in PVs, disp \in {0, 1, 2, 3, 4, 5, 6, 7, 128, 255}, res \in {-1, 0, 1, 2, 3, 4, 5, 6, 256, 65536}}
  \cup {CreateW(pv, p, acc[1], acc[2], 1, 1, sid) : pv \in PVs, p \in Texts, sid \in SidS, acc \in {<<GenRead, "Generic Read">>, <<Zeros(4), "None 0x0">>, <<<<0, 0, 0, 4>>, "None 0x4000000">>}}
  \cup {CreateMasks(pv, acc, Zeros(3), Zeros(2), Zeros(2)) : pv \in PVs, acc \in Ones \cup Combos}
  \cup {CreateMasks(pv, GenRead, Bit3(i), Zeros(2), Zeros(2)) : pv \in PVs, i \in 0..23}
  \cup {CreateMasks(pv, GenRead, Zeros(3), Bit2(i), Zeros(2)) : pv \in PVs, i \in 0..15}
  \cup {CreateMasks(pv, GenRead, Zeros(3), Zeros(2), Bit2(i)) : pv \in PVs, i \in 0..15}
  \cup {CreateMasks(pv, GenRead, Zeros(3), <<255, 255>>, <<s, 0>>) : pv \in PVs, s \in 0..15}

(* Reads and writes. *)
PrioText(p) == CASE p = 1 -> "Very Low" [] p = 2 -> "Low" [] p = 3 -> "Normal" [] p = 4 -> "High" [] p = 5 -> "Critical" [] OTHER -> "0x" \o ToString(p)
RW(op, pv, p, flags, off, len, xl, offd, pr) ==
  FWire(op, 0, pv, Params(pv, <<<<4, flags>>, <<12, len>>, <<At2(pv, 20, 28), off>>>>), p, <<>>, IF xl = <<>> THEN NoX ELSE X(xl), <<>>,
        R(TRUE, op, p.s, IF op = "ReadFile" THEN "Read" ELSE "Write",
          <<DSInt("Offset", off), DInt("Length", IF xl = <<>> THEN len ELSE SubSeq(xl, 1, 4))>>
          \o offd \o (IF pr = 0 THEN <<>> ELSE <<DStr("Priority", PrioText(pr))>>)))
Offs8 == {Zeros(8), <<1, 0, 0, 0, 0, 0, 0, 0>>, [i \in 1..8 |-> 255], <<254, 255, 255, 255, 255, 255, 255, 255>>, <<0, 0, 0, 0, 0, 0, 0, 128>>, <<0, 0, 0, 128, 0, 0, 0, 0>>, <<0, 0, 0, 0, 1, 0, 0, 0>>, Fill(8, 1)}
RwWires(all) ==
  {RW(op, pv, p, Zeros(4), off, len, xl, <<>>, 0) : op \in {"ReadFile", "WriteFile"}, pv \in PVs, p \in {PathF, Txt(Emoji, FALSE)}, off \in Offs8, len \in {Zeros(4), Fill(4, 9)}, xl \in {<<>>, Fill(4, 77), Zeros(6)}}
  \cup {RW(op, pv, PathF, <<0, 0, 2 * pr + 16 * hi, 0>>, Zeros(8), Fill(4, 9), <<>>, <<>>, pr) : op \in {"ReadFile", "WriteFile"}, pv \in PVs, pr \in 0..7, hi \in 0..1}
  \cup {Stress(RW(op, pv, PathF, f, Zeros(8), Fill(4, 9), <<>>, <<>>, 0)) : op \in {"ReadFile", "WriteFile"}, pv \in PVs, f \in Ones \cup {Or(Bit4(i), Bit4(j)) : i \in {0, 3, 7, 21, 23}, j \in {1, 2, 17, 18, 22}}}

MapW(pv, p, sync, synct, prot, prott) ==
  FWire("CreateFileMapping", 0, pv, Params(pv, <<<<12, sync>>, <<16, prot>>>>), p, <<>>, NoX, <<>>,
        R(TRUE, "CreateFileMapping", p.s, "", <<DStr("SyncType", synct)>> \o prott))
Prot(s) == <<DStr("PageProtection", s)>>
MapWires(all) ==
  {MapW(pv, p, s[1], s[2], r[1], r[2]) : pv \in PVs, p \in FewTexts,
     s \in {<<Zeros(4), "SyncTypeOther">>, <<W32(1), "SyncTypeCreateSection">>, <<W32(2), "Unknown: 0x2">>, <<<<0, 0, 0, 128>>, "Unknown: 0x80000000">>, <<W32(257), "Unknown: 0x101">>},
     r \in {<<Zeros(4), <<>>>>, <<W32(2), Prot("PAGE_READONLY")>>, <<W32(4), Prot("PAGE_READWRITE")>>, <<W32(8), Prot("PAGE_WRITECOPY")>>, <<W32(16), Prot("PAGE_EXECUTE")>>,
            <<W32(32), Prot("PAGE_EXECUTE_READ")>>, <<W32(64), Prot("PAGE_EXECUTE_READWRITE")>>, <<W32(1), <<>>>>, <<W32(128), <<>>>>, <<W32(512), <<>>>>,
            <<W32(514), Prot("PAGE_READONLY|PAGE_NOCACHE")>>, <<W32(576), Prot("PAGE_EXECUTE_READWRITE|PAGE_NOCACHE")>>, <<W32(6), Prot("PAGE_READONLY")>>}}
  \cup {Stress(MapW(pv, PathF, Zeros(4), "", m, <<>>)) : pv \in PVs, m \in Ones}

(* Requests that say nothing beyond their name: every minor code of every major. *)
SubWires(all) ==
  {Stress(FWire(FileOp[k], s, pv, Params(pv, <<>>), p, <<0, 0, 0, 0, 0, 0, 0, 0>>, x, <<>>, Bad(""))) :
     k \in DOMAIN FileOp, s \in (0..70) \cup {127, 128, 254, 255}, pv \in {8}, p \in {PathF}, x \in {NoX}}
DispositionWires(all) ==
  {FWire("SetInformationFile", Code(SetFileSub, "SetDispositionInformationFile"), pv, Params(pv, <<>>), p, <<v>> \o t, NoX, <<>>,
         R(TRUE, "SetDispositionInformationFile", p.s, IF v = 0 THEN "" ELSE "Write", <<DStr("Delete", IF v = 0 THEN "False" ELSE "True")>>)) :
     pv \in PVs, p \in Texts, v \in {0, 1, 2, 127, 128, 255}, t \in {<<>>, <<1>>}}

(***************************************************************************)
(* Directories and controls                                                *)
(***************************************************************************)
QCode == Code(DirectorySub, "QueryDirectory")
(* Entries of a listing: fixed part, name, filler up to the next. *)
Entry(layout, next, n, u, fill) ==
  LET at == NameAt[layout]
      sz == SizeAt(layout)
      fixed == Patch(Patch(Fill(at, 90), 0, W32(next)), sz, W32(2 * n))
  IN  fixed \o Wide(u) \o fill
RECURSIVE Listing(_, _, _, _)
Listing(layout, names, k, pad) ==
  IF k > Len(names) THEN <<>>
  ELSE LET f == Fill(pad, 3)
           size == NameAt[layout] + 2 * Len(names[k]) + pad
       IN  Entry(layout, IF k = Len(names) THEN 0 ELSE size, Len(names[k]), names[k], f) \o Listing(layout, names, k + 1, pad)
NameLists == {<<>>, <<K1>>, <<K1, Emoji>>, <<<<46>>, <<46, 46>>, K1>>, <<<<>>>>, <<K1, <<>>, Emoji>>, <<K1, K1>>, <<<<97, 98, 99, 100, 101, 102, 103, 104>>, K1>>}
Layouts == DOMAIN NameAt
InfoCode(layout) == Code(FileInfoClass, layout)
Filters == {Txt(<<>>, TRUE), Txt(<<>>, FALSE), Txt(<<42>>, TRUE), Txt(<<42>>, FALSE), Txt(Emoji, FALSE), Txt(Cut, FALSE), Txt(<<92, 42>>, TRUE)}
PathsD == {Txt(<<>>, TRUE), Txt(CRoot, TRUE), Txt(CRoot, FALSE), Txt(<<67, 58>>, TRUE), Txt(Emoji, FALSE), Txt(<<97, 92>>, FALSE)}
Joined(p, f) == IF f.s = "" THEN p.s ELSE IF EndsWithBackslash(p.s) THEN p.s \o f.s ELSE p.s \o "\\" \o f.s
DirW(pv, p, f, info, x, lens, det) ==
  FWire("DirectoryControl", QCode, pv, Params(pv, <<<<At2(pv, 20, 28), W32(info)>>>>), p, W16(f.i) \o f.b, x, Append(lens, <<"b", TailAt(pv, p), 2>>),
        [R(TRUE, "QueryDirectory", Joined(p, f), "Read Metadata",
           (IF f.s = "" THEN <<>> ELSE <<DStr("Filter", f.s)>>) \o <<DStr("FileInformationClass", FileInfoClass[info])>> \o det) EXCEPT !.base = p.s])
Numbered(names, first) == [i \in DOMAIN names |-> DStr(ToString(first + i - 1), Say(names[i]))]
DirWires(all) ==
  {DirW(pv, p, f, c, NoX, <<>>, <<>>) : pv \in PVs, p \in PathsD, f \in Filters, c \in {InfoCode("FileNamesInformation"), InfoCode("FileDirectoryInformation")}}
  \cup {DirW(pv, PathF, f, c, x, <<>>, <<>>) : pv \in PVs, f \in {Txt(<<42>>, TRUE)}, c \in DOMAIN FileInfoClass, x \in {NoX}}
  \cup {DirW(pv, PathF, Txt(<<42>>, TRUE), c, X(Fill(40, 1)), <<>>, <<>>) : pv \in PVs, c \in {k \in DOMAIN FileInfoClass : FileInfoClass[k] \notin Layouts}}
  \cup {DirW(pv, PathF, f, InfoCode(lay), X(Listing(lay, ns, 1, pad)), <<<<"x", 0, 4>>, <<"x", SizeAt(lay), 4>>>>,
             Numbered(ns, IF f.s = "" THEN 0 ELSE 1)) :
          pv \in PVs, f \in {Txt(<<>>, TRUE), Txt(<<42>>, TRUE)}, lay \in Layouts, ns \in NameLists \ {<<>>}, pad \in {0, 2, 5, 8}}
NotifyWires(all) ==
  {Stress(FWire("DirectoryControl", Code(DirectorySub, "NotifyChangeDirectory"), pv, Params(pv, <<<<At2(pv, 16, 20), m>>>>), PathF, <<>>, NoX, <<>>, Bad(""))) :
     pv \in PVs, m \in Ones \cup Combos \cup {Or(Bit4(i), Bit4(j)) : i \in 0..5, j \in 6..11}}

(* Control codes: every known one and codes around the known ones. *)
CodeBytes(h) == LET p == IF Len(h) % 2 = 1 THEN "0" \o h ELSE h
                    n == Len(p) \div 2
                    dig(c) == CHOOSE v \in 0..15 : HexDigit[v + 1] = c
                    byte(i) == 16 * dig(SubSeq(p, 2 * i - 1, 2 * i - 1)) + dig(SubSeq(p, 2 * i, 2 * i))
                IN  [i \in 1..4 |-> IF i <= n THEN byte(n + 1 - i) ELSE 0]
Known4 == {CodeBytes(h) : h \in DOMAIN ControlName}
Near4 == {[Fill(4, 7) EXCEPT ![i] = v] : i \in 1..4, v \in {0, 1, 2, 3, 4, 255}} \cup {Zeros(4), <<255, 255, 255, 255>>, <<3, 0, 0, 0>>, <<4, 0, 0, 0>>, <<252, 63, 0, 0>>, <<0, 64, 0, 0>>, <<255, 191, 34, 0>>}
ControlW(op, pv, code, tail) ==
  Stress(FWire(op, 0, pv, Params(pv, <<<<At2(pv, 20, 28), code>>>>), PathF, tail, NoX, <<>>, Bad("")))
Pipe(name, pv, det) ==
  FWire("FileSystemControl", 0, pv, Params(pv, <<<<At2(pv, 20, 28), CodeBytes(CHOOSE h \in DOMAIN ControlName : ControlName[h] = name)>>,
                                                 <<8, <<1, 2, 3, 4>>>>, <<12, <<5, 6, 7, 8>>>>>>), PathF, Fill(16, 50), NoX, <<>>,
        R(TRUE, "FileSystemControl", PathF.s, IF name \in {"FSCTL_PIPE_TRANSCEIVE", "FSCTL_PIPE_INTERNAL_TRANSCEIVE", "FSCTL_OFFLOAD_WRITE"} THEN "Write"
                                              ELSE IF name = "FSCTL_OFFLOAD_READ" THEN "Read" ELSE "",
          <<DStr("Control", name)>> \o det))
ControlWires(all) ==
  {ControlW(op, pv, c, <<0, 0, 0, 0, 0, 0, 0, 128, 1, 0, 0, 0, 0, 0, 0, 255>>) : op \in {"FileSystemControl", "DeviceIoControl"}, pv \in PVs, c \in Known4}
  \cup {ControlW(op, 8, c, <<>>) : op \in {"FileSystemControl", "DeviceIoControl"}, c \in Near4}
  \cup {ControlW("DeviceIoControl", 8, [k EXCEPT ![1] = (@ + d) % 256], <<>>) : k \in Known4, d \in {1, 4, 255}}
  \cup UNION {{Pipe("FSCTL_PIPE_INTERNAL_WRITE", pv, <<DInt("Length", <<1, 2, 3, 4>>)>>), Pipe("FSCTL_PIPE_INTERNAL_READ", pv, <<DInt("Length", <<5, 6, 7, 8>>)>>),
                Pipe("FSCTL_PIPE_TRANSCEIVE", pv, <<DInt("WriteLength", <<1, 2, 3, 4>>), DInt("ReadLength", <<5, 6, 7, 8>>)>>),
                Pipe("FSCTL_PIPE_INTERNAL_TRANSCEIVE", pv, <<DInt("WriteLength", <<1, 2, 3, 4>>), DInt("ReadLength", <<5, 6, 7, 8>>)>>),
                Pipe("FSCTL_OFFLOAD_READ", pv, <<DSInt("Offset", Fill(8, 50)), DInt("Length", SubSeq(Fill(16, 50), 9, 16))>>),
                Pipe("FSCTL_OFFLOAD_WRITE", pv, <<DSInt("Offset", Fill(8, 50)), DInt("Length", SubSeq(Fill(16, 50), 9, 16))>>)} : pv \in PVs}

(***************************************************************************)
(* Texts: every short sequence of remarkable code units.                   *)
(***************************************************************************)
Remarkable == {0, 97, 92, 2560, 256, 55357, 56832, 65279}
Sequences(k) == UNION {[1..n -> Remarkable] : n \in 0..k}
TextWires(k) ==
  {Stress(RWire("RegDeleteKey", W16(Len(u)) \o Wide(u), NoX, <<>>, "", "", <<>>)) : u \in Sequences(k)}
  \cup {Stress(RWire("RegRenameKey", W16(Len(u)) \o W16(2) \o Wide(u) \o <<98, 0, 99, 0>>, NoX, <<>>, "", "", <<>>)) : u \in Sequences(k - 1)}
  \cup {Stress(SetValueW(Key, t, Wide(u) \o tail, 2 * Len(u), 2 * Len(u), <<>>)) : t \in {1, 7}, u \in Sequences(k - 1), tail \in {<<>>, <<122, 0>>}}
  \cup {Stress(ValueOp("RegQueryValue", Key, 2, X(Fill(4, 1) \o W32(t) \o W32(2 * Len(u)) \o Wide(u)), <<>>, <<>>)) : t \in {2, 7}, u \in Sequences(k - 1)}
  \cup {Stress(QueryOp("RegQueryKey", Key, 3, X(W32(2 * Len(u)) \o Wide(u) \o <<122, 0>>), <<>>, <<>>)) : u \in Sequences(k - 1)}
  \cup {Stress(PWire("Process_Start", 8, Fill(4, 1) \o W16(1) \o W16(1) \o W32(Len(u)) \o <<97, 0, 98, 0>> \o Wide(u) \o <<122, 0>>, <<>>, "", <<>>)) : u \in Sequences(k - 1)}
  \cup {Stress(NetWire(2, 4, A1, A1, P1, P1, [b |-> Wide(u), d |-> <<>>])) : u \in Sequences(k - 1)}
  \cup {Stress(DirW(8, PathF, [i |-> Len(u), b |-> Wide(u), s |-> ""], InfoCode("FileNamesInformation"), X(Listing("FileNamesInformation", <<u, K1>>, 1, 0)), <<>>, <<>>)) : u \in Sequences(k - 1)}

(***************************************************************************)
Family(f) ==
  CASE f = "net"    -> NetWires(TRUE)
    [] f = "proc"   -> ProcWires(TRUE)
    [] f = "key"    -> KeyWires(TRUE) \cup PlainWires(TRUE)
    [] f = "open"   -> OpenWires(TRUE) \cup SetWires(TRUE)
    [] f = "value"  -> ValueWires(TRUE)
    [] f = "oddvalue" -> OddValueWires(TRUE)
    [] f = "create" -> CreateWires(TRUE) \cup MapWires(TRUE) \cup DispositionWires(TRUE)
    [] f = "rw"     -> RwWires(TRUE) \cup SubWires(TRUE)
    [] f = "dir"    -> DirWires(TRUE) \cup NotifyWires(TRUE)
    [] f = "control" -> ControlWires(TRUE)
    [] f = "text"   -> TextWires(3)
    [] f = "text4"  -> TextWires(4)

(* The wires one change away: another length, more or fewer bytes. *)
Elems(s) == {s[i] : i \in DOMAIN s}
Part(w, part) == IF part = "b" THEN w.b ELSE w.x.b
WithPart(w, part, s) == IF part = "b" THEN [w EXCEPT !.b = s, !.known = FALSE, !.lens = <<>>] ELSE [w EXCEPT !.x.b = s, !.known = FALSE, !.lens = <<>>]
NewLens(old, width) ==
  LET v == U16(old \o <<0>>, 0) IN
  CASE width = 1 -> {<<n>> : n \in {0, 1, 8, 255, old[1] - 1, old[1] + 1} \cap (0..255)}
    [] width = 2 -> {W16(n) : n \in {0, v - 2, v - 1, v + 1, v + 2, IF v >= 32768 THEN v - 32768 ELSE v + 32768} \cap (0..65535)}
    [] width = 4 -> {W32(n) : n \in {m \in {0, 1, v - 4, v - 2, v - 1, v + 1, v + 2, v + 4, 65536 + v} : m >= 0}} \cup {<<255, 255, 255, 255>>, <<255, 255, 255, 127>>}
Resized(w) == {WithPart(w, l[1], Patch(Part(w, l[1]), l[2], n)) : <<l, n>> \in
                 UNION {{<<l, n>> : n \in NewLens(Sub(Part(w, l[1]), l[2], l[3]), l[3])} : l \in Elems(w.lens)}}
Shortened(w, part) == {WithPart(w, part, SubSeq(Part(w, part), 1, Len(Part(w, part)) - k)) : k \in {i \in {1, 2, 4} : i <= Len(Part(w, part))}}
Lengthened(w, part) == {WithPart(w, part, Part(w, part) \o t) : t \in {<<0>>, <<122, 0>>, <<0, 0, 122, 0>>}}
Neighbours(w) == IF w.lens = <<>> THEN {}
                 ELSE Resized(w) \cup Shortened(w, "b") \cup Lengthened(w, "b") \cup (IF w.x.has THEN Shortened(w, "x") \cup Lengthened(w, "x") ELSE {})
=============================================================================
