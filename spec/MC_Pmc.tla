-------------------------------- MODULE MC_Pmc --------------------------------
(* A configuration file as it is put together option by option, and what can    *)
(* happen to it afterwards: it is cut short, or one of its bytes is altered.     *)
EXTENDS PmcFormat, Json, IOUtils

VARIABLES conf,     \* the options written so far
          cut,      \* bytes left of the file, or -1
          hit       \* an altered byte <<offset, value>>, or <<>>
mvars == <<conf, cut, hit>>

Nat2(t) == CHOOSE k \in 0..100000 : ToString(k) = t
Mode   == IOEnv.VERIF_MODE
Stride == Nat2(IOEnv.VERIF_STRIDE)
Phase  == Nat2(IOEnv.VERIF_PHASE)
Depth  == Nat2(IOEnv.VERIF_DEPTH)

(***************************************************************************)
(* The options there are to choose from.                                   *)
(***************************************************************************)
Astral == <<55357, 56832>>
TextsTried == {<<>>, <<97>>, <<0, 97>>, Astral, <<67, 58, 92, 13, 10, 255, 256>>}
RuleA == [col |-> 40054, rel |-> 0, act |-> 1, val |-> <<52>>]
RuleB == [col |-> Architecture, rel |-> 3, act |-> 0, val |-> <<51, 50>>]
RuleC == [col |-> 40164, rel |-> 5, act |-> 1, val |-> <<>>]
RuleD == [col |-> 0, rel |-> 2, act |-> 0, val |-> Astral \o <<0, 49>>]
ValuesFor(k) ==
  CASE k = "int"     -> {[t |-> "int", b |-> b] : b \in {<<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<1, 2, 3, 132>>}}
    [] k = "widths"  -> {[t |-> "widths", l |-> l] : l \in {<<>>, <<0>>, <<1, 65535, 256>>}}
    [] k = "columns" -> {[t |-> "columns", l |-> l] : l \in {<<>>, <<40054>>, <<0, Architecture, 40164, 40054>>}}
    [] k \in {"text", "ctext"} -> {[t |-> "text", u |-> u] : u \in TextsTried}
    [] k = "font"    -> {[t |-> "font", n |-> [i \in 1..5 |-> <<i, 0, 255, 255>>], c |-> <<0, 1, 2, 3, 252, 253, 254, 255>>, u |-> u]
                          : u \in {<<>>, <<65, 114>>, Astral, [i \in 1..31 |-> 70]}}
    [] k = "rules"   -> {[t |-> "rules", r |-> r] : r \in {<<>>, <<RuleA>>, <<RuleB, RuleC>>, <<RuleD, RuleA, RuleD>>}}
    [] OTHER         -> {[t |-> "bytes", b |-> b] : b \in {<<>>, <<0>>, <<16, 0, 0, 0, 16, 0, 0, 0, 16, 0, 0, 0, 0, 0, 0, 0>>}}
\* names nobody knows: none at all, another case, a longer one, with a NUL inside, from another plane
Strangers == {<<>>, <<99, 111, 108, 117, 109, 110, 115>>, <<67, 111, 108, 117, 109, 110, 67, 111, 117, 110, 116, 115>>,
              <<76, 111, 103, 102, 105, 108, 101, 0, 120>>, Astral}
AllNames == DOMAIN OptionKind \cup Strangers
Palette == SetToSeq(UNION {{[n |-> m, v |-> w] : w \in ValuesFor(Kind(m))} : m \in AllNames})
Allowed(i) == Mode = "build" \/ (i % Stride) = (Phase % Stride)

(***************************************************************************)
(* What happens.                                                           *)
(***************************************************************************)
File == Encode(conf)
RECURSIVE EndOf(_)
EndOf(k) == IF k = 0 THEN 0 ELSE EndOf(k - 1) + Len(RecordBytes(conf[k]))      \* of the k-th record

Put1 == \E i \in DOMAIN Palette :
          /\ Allowed(i) /\ Len(conf) < Depth
          /\ \A j \in DOMAIN conf : conf[j].n # Palette[i].n
          /\ conf' = Append(conf, Palette[i]) /\ UNCHANGED <<cut, hit>>
CutShort == /\ cut' \in 0..(Len(File) - 1) /\ UNCHANGED <<conf, hit>>
Alter == \E o \in DOMAIN File : \E v \in {(File[o] + 1) % 256, (File[o] + 255) % 256, (File[o] + 128) % 256, 255 - File[o]} :
           /\ hit' = <<o, v>> /\ UNCHANGED <<conf, cut>>

MInit == conf = <<>> /\ cut = -1 /\ hit = <<>>
MNext == /\ cut = -1 /\ hit = <<>>
         /\ IF Mode = "cut" /\ Len(conf) = Depth THEN CutShort
            ELSE IF Mode = "alter" /\ Len(conf) = Depth THEN Alter
            ELSE Put1
MSpec == MInit /\ [][MNext]_mvars

Remains == IF cut >= 0 THEN SubSeq(File, 1, cut) ELSE IF hit # <<>> THEN [File EXCEPT ![hit[1]] = hit[2]] ELSE File

(***************************************************************************)
(* What must hold.                                                         *)
(***************************************************************************)
Whole == cut = -1 /\ hit = <<>> /\ (Len(conf) <= 3 \/ Len(conf) = Depth)
(* What was written is what is read, and what is read is written again.    *)
RoundTrip == Whole => /\ Good(conf) /\ Decode(File) = [st |-> "ok", opts |-> conf]
                      /\ Canonical(File) /\ Encode(Decode(File).opts) = File
                      /\ Len(File) = EndOf(Len(conf))
(* Of a shortened file exactly the whole records in it.                    *)
Prefix == cut >= 0 => LET n == Cardinality({k \in 1..Len(conf) : EndOf(k) <= cut})
                      IN  Decode(Remains) = [st |-> "ok", opts |-> SubSeq(conf, 1, n)]
(* Where the altered byte lies: record, and offset in it. *)
HitRecord == CHOOSE k \in 1..Len(conf) : EndOf(k - 1) < hit[1] /\ hit[1] <= EndOf(k)
HitAt == hit[1] - EndOf(HitRecord - 1) - 1
(* An altered record header is never taken for a file.                     *)
Refused == (hit # <<>> /\ HitAt < 16) => Decode(Remains).st = "refused"
(* Elsewhere a byte changes at most the option it is part of.              *)
Local == (hit # <<>> /\ HitAt >= 16) =>
           LET d == Decode(Remains) IN
           /\ d.st # "refused"
           /\ d.st = "ok" => /\ Len(d.opts) = Len(conf)
                             /\ \A k \in DOMAIN conf : k # HitRecord => d.opts[k] = conf[k]

Export == CASE Mode = "build" -> (Len(conf) = Depth => PrintT(<<"P", ToJson(conf)>>))
            [] OTHER -> (~Whole => PrintT(<<"B", ToJson(Remains)>>))
=============================================================================
