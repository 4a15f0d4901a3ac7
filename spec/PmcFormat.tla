------------------------------ MODULE PmcFormat ------------------------------
(* The PMC configuration format: options, their bytes, and what a (possibly    *)
(* damaged) byte string yields.                                                *)
(*                                                                             *)
(* Texts are sequences of UTF-16 code units.  An option is [n, v]: name and    *)
(* value; values are                                                           *)
(*   [t |-> "int",   b]      32-bit number, as 4 bytes                         *)
(*   [t |-> "widths", l]     16-bit numbers                                    *)
(*   [t |-> "columns", l]    column codes                                      *)
(*   [t |-> "text",  u]      text                                              *)
(*   [t |-> "font",  n, c, u]  five 4-byte numbers, eight bytes, face name     *)
(*   [t |-> "rules", r]      rules [col, rel, act, val]                        *)
(*   [t |-> "bytes", b]      the value of an option of unknown name            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Tables

Latin(s) == s      \* names below are written as code units
OptionKind ==
  (<<67,111,108,117,109,110,115>> :> "widths") @@                             \* Columns
  (<<67,111,108,117,109,110,67,111,117,110,116>> :> "int") @@                 \* ColumnCount
  (<<67,111,108,117,109,110,77,97,112>> :> "columns") @@                      \* ColumnMap
  (<<68,98,103,72,101,108,112,80,97,116,104>> :> "text") @@                   \* DbgHelpPath
  (<<76,111,103,102,105,108,101>> :> "text") @@                               \* Logfile
  (<<72,105,103,104,108,105,103,104,116,70,71>> :> "int") @@                  \* HighlightFG
  (<<72,105,103,104,108,105,103,104,116,66,71>> :> "int") @@                  \* HighlightBG
  (<<76,111,103,70,111,110,116>> :> "font") @@                                \* LogFont
  (<<66,111,111,111,107,109,97,114,107,70,111,110,116>> :> "font") @@         \* BoookmarkFont
  (<<65,100,118,97,110,99,101,100,77,111,100,101>> :> "int") @@               \* AdvancedMode
  (<<65,117,116,111,115,99,114,111,108,108>> :> "int") @@                     \* Autoscroll
  (<<72,105,115,116,111,114,121,68,101,112,116,104>> :> "int") @@             \* HistoryDepth
  (<<80,114,111,102,105,108,105,110,103>> :> "int") @@                        \* Profiling
  (<<68,101,115,116,114,117,99,116,105,118,101,70,105,108,116,101,114>> :> "int") @@  \* DestructiveFilter
  (<<65,108,119,97,121,115,79,110,84,111,112>> :> "int") @@                   \* AlwaysOnTop
  (<<82,101,115,111,108,118,101,65,100,100,114,101,115,115,101,115>> :> "int") @@     \* ResolveAddresses
  (<<83,111,117,114,99,101,80,97,116,104>> :> "ctext") @@                     \* SourcePath
  (<<83,121,109,98,111,108,80,97,116,104>> :> "ctext") @@                     \* SymbolPath
  (<<70,105,108,116,101,114,82,117,108,101,115>> :> "rules") @@               \* FilterRules
  (<<72,105,103,104,108,105,103,104,116,82,117,108,101,115>> :> "rules")      \* HighlightRules
Kind(n) == IF n \in DOMAIN OptionKind THEN OptionKind[n] ELSE "bytes"

Architecture == 40088

(***************************************************************************)
(* Little-endian numbers and texts                                         *)
(***************************************************************************)
Byte(v, i) == (v \div (256 ^ i)) % 256
LE2(v) == <<v % 256, v \div 256>>
LE4(v) == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, (v \div 16777216) % 256>>
LE4of(b, o) == IF b[o + 4] >= 64 THEN 1073741824          \* "too large"
               ELSE b[o + 1] + 256 * b[o + 2] + 65536 * b[o + 3] + 16777216 * b[o + 4]
BIG == 1073741824
Cat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
Text(u)  == [i \in 1..(2 * Len(u)) |-> IF i % 2 = 1 THEN u[(i + 1) \div 2] % 256 ELSE u[i \div 2] \div 256]
CText(u) == IF u = <<>> THEN <<>> ELSE Text(u) \o <<0, 0>>

(***************************************************************************)
(* The numeric value of a rule.  -1 stands for a byte that is not          *)
(* specified: texts of non-ASCII digits only.                              *)
(***************************************************************************)
IsDigit(c) == c >= 48 /\ c <= 57
AllDigits(u) == u # <<>> /\ \A i \in DOMAIN u : IsDigit(u[i])
MaybeDigits(u) == /\ \E i \in DOMAIN u : u[i] > 127
                  /\ \A i \in DOMAIN u : IsDigit(u[i]) \/ u[i] > 127
(* Digits as 16-bit limbs <<low, high>>, or <<>> when above 2^32 - 1. *)
RECURSIVE Number(_, _)
Number(u, n) ==
  IF n = 0 THEN <<0, 0>>
  ELSE LET p == Number(u, n - 1) IN
       IF p = <<>> THEN <<>>
       ELSE LET lo == p[1] * 10 + u[n] - 48
                hi == p[2] * 10 + lo \div 65536
            IN  IF hi > 65535 THEN <<>> ELSE <<lo % 65536, hi>>
Contains32(u) == \E i \in 1..(Len(u) - 1) : u[i] = 51 /\ u[i + 1] = 50
RuleNumber(col, u) ==
  IF MaybeDigits(u) THEN <<-1, -1, -1, -1>>
  ELSE IF AllDigits(u)
       THEN LET v == Number(u, Len(u)) IN
            IF v # <<>> THEN LE2(v[1]) \o LE2(v[2])
            ELSE IF col = Architecture THEN <<-1, -1, -1, -1>> ELSE <<0, 0, 0, 0>>
  ELSE IF col = Architecture THEN (IF Contains32(u) THEN LE4(32) ELSE LE4(64))
  ELSE <<0, 0, 0, 0>>

(***************************************************************************)
(* Encoding                                                                *)
(***************************************************************************)
RuleBytes(r) == LET t == CText(r.val) IN
                LE4(r.col) \o LE4(r.rel) \o <<r.act>> \o LE4(Len(t)) \o t \o RuleNumber(r.col, r.val) \o <<0, 0, 0, 0>>
Face(u) == LET t == Text(u) IN [i \in 1..64 |-> IF i <= Len(t) THEN t[i] ELSE 0]
DataBytes(n, v) ==
  CASE v.t = "int"     -> v.b
    [] v.t = "widths"  -> Cat([i \in DOMAIN v.l |-> LE2(v.l[i])])
    [] v.t = "columns" -> Cat([i \in DOMAIN v.l |-> LE4(v.l[i])])
    [] v.t = "text"    -> IF Kind(n) = "ctext" THEN CText(v.u) ELSE Text(v.u)
    [] v.t = "font"    -> Cat(v.n) \o v.c \o Face(v.u)
    [] v.t = "rules"   -> <<1>> \o LE4(Len(v.r)) \o Cat([i \in DOMAIN v.r |-> RuleBytes(v.r[i])])
    [] v.t = "bytes"   -> v.b
RecordBytes(o) ==
  LET n == CText(o.n)
      d == DataBytes(o.n, o.v)
  IN  LE4(16 + Len(n) + Len(d)) \o LE4(16) \o LE4(16 + Len(n)) \o LE4(Len(d)) \o n \o d
Encode(opts) == Cat([i \in DOMAIN opts |-> RecordBytes(opts[i])])

(* Agreement with bytes that may be unspecified. *)
Matches(b, pattern) == Len(b) = Len(pattern) /\ \A i \in DOMAIN b : pattern[i] = -1 \/ b[i] = pattern[i]

(***************************************************************************)
(* Decoding.  A result is [st, opts]: st = "ok", "refused" (loading must   *)
(* raise) or "free" (the content is outside the documented format).        *)
(***************************************************************************)
Sub(b, o, n) == SubSeq(b, o + 1, o + n)
UnitsAt(b, o, n) == [i \in 1..(n \div 2) |-> b[o + 2 * i - 1] + 256 * b[o + 2 * i]]
RECURSIVE Strip(_)
Strip(u) == IF u = <<>> \/ u[Len(u)] # 0 THEN u ELSE Strip(SubSeq(u, 1, Len(u) - 1))

(* Surrogates in pairs only: other texts are outside the format. *)
Paired(u) == \A i \in DOMAIN u :
               /\ (u[i] >= 55296 /\ u[i] <= 56319) => (i < Len(u) /\ u[i + 1] >= 56320 /\ u[i + 1] <= 57343)
               /\ (u[i] >= 56320 /\ u[i] <= 57343) => (i > 1 /\ u[i - 1] >= 55296 /\ u[i - 1] <= 56319)
NoTrailingNul(u) == u = <<>> \/ u[Len(u)] # 0
RECURSIVE RulesAt(_, _, _, _)
RulesAt(b, o, end, k) ==
  IF k = 0 THEN [ok |-> o = end, r |-> <<>>]
  ELSE IF o + 13 > end THEN [ok |-> FALSE, r |-> <<>>]
  ELSE LET n == LE4of(b, o + 9)
           col == LE4of(b, o)
           rel == LE4of(b, o + 4)
           act == b[o + 9]
       IN  IF n % 2 = 1 \/ n >= BIG \/ o + 13 + n + 8 > end \/ col \notin DOMAIN ColumnName
              \/ rel \notin DOMAIN RuleRelationName \/ act \notin DOMAIN RuleActionName
              \/ ~Paired(Strip(UnitsAt(b, o + 13, n)))
           THEN [ok |-> FALSE, r |-> <<>>]
           ELSE LET rest == RulesAt(b, o + 13 + n + 8, end, k - 1)
                IN  [ok |-> rest.ok,
                     r |-> <<[col |-> col, rel |-> rel, act |-> act, val |-> Strip(UnitsAt(b, o + 13, n))]>> \o rest.r]

Value(n, b, o, size) ==
  LET k == Kind(n)
      no == [ok |-> FALSE, v |-> [t |-> "none"]]
      yes(v) == [ok |-> TRUE, v |-> v]
  IN
  CASE k = "int"     -> IF size = 4 THEN yes([t |-> "int", b |-> Sub(b, o, 4)]) ELSE no
    [] k = "widths"  -> IF size % 2 = 0 THEN yes([t |-> "widths", l |-> UnitsAt(b, o, size)]) ELSE no
    [] k = "columns" -> IF size % 4 = 0
                        THEN LET l == [i \in 1..(size \div 4) |-> LE4of(b, o + 4 * (i - 1))] IN
                             IF \A i \in DOMAIN l : l[i] \in DOMAIN ColumnName THEN yes([t |-> "columns", l |-> l]) ELSE no
                        ELSE no
    [] k \in {"text", "ctext"} ->
                        IF size % 2 = 0 /\ Paired(Strip(UnitsAt(b, o, size))) THEN yes([t |-> "text", u |-> Strip(UnitsAt(b, o, size))]) ELSE no
    [] k = "font"    -> IF size = 92 /\ Paired(Strip(UnitsAt(b, o + 28, 64)))
                        THEN yes([t |-> "font", n |-> [i \in 1..5 |-> Sub(b, o + 4 * (i - 1), 4)],
                                  c |-> Sub(b, o + 20, 8), u |-> Strip(UnitsAt(b, o + 28, 64))])
                        ELSE no
    [] k = "rules"   -> IF size < 5 THEN no
                        ELSE IF b[o + 1] # 1 THEN no
                        ELSE LET r == RulesAt(b, o + 5, o + size, LE4of(b, o + 1)) IN
                             IF r.ok THEN yes([t |-> "rules", r |-> r.r]) ELSE no
    [] OTHER         -> yes([t |-> "bytes", b |-> Sub(b, o, size)])

RECURSIVE DecodeFrom(_, _)
DecodeFrom(b, o) ==
  IF o + 16 > Len(b)       \* cut; whether a wrong fixed field in front of the cut is refused is left open
  THEN [st |-> IF o + 8 <= Len(b) /\ Sub(b, o + 4, 4) # LE4(16) THEN "free" ELSE "ok", opts |-> <<>>]
  ELSE LET size == LE4of(b, o)
           head == LE4of(b, o + 8)
           data == LE4of(b, o + 12)
           SumsUp == \* size = head + data as 32-bit numbers
             LET s == [i \in 1..4 |-> b[o + 8 + i] + b[o + 12 + i]]
                 c1 == s[1] \div 256
                 c2 == (s[2] + c1) \div 256
                 c3 == (s[3] + c2) \div 256
                 c4 == (s[4] + c3) \div 256
             IN  c4 = 0 /\ <<s[1] % 256, (s[2] + c1) % 256, (s[3] + c2) % 256, (s[4] + c3) % 256>> = Sub(b, o, 4)
       IN  IF Sub(b, o + 4, 4) # LE4(16) \/ ~SumsUp THEN [st |-> "refused", opts |-> <<>>]
           ELSE IF head < 16 \/ head % 2 = 1 THEN [st |-> "free", opts |-> <<>>]
           ELSE IF size >= BIG \/ o + size > Len(b) THEN [st |-> "ok", opts |-> <<>>]     \* cut
           ELSE LET n == Strip(UnitsAt(b, o + 16, head - 16))
                    v == Value(n, b, o + head, data)
                    r == DecodeFrom(b, o + size)
                IN  IF ~v.ok \/ ~Paired(n) THEN [st |-> "free", opts |-> <<>>]
                    ELSE [r EXCEPT !.opts = <<[n |-> n, v |-> v.v]>> \o @]
Decode(b) == LET d == DecodeFrom(b, 0) IN
             IF d.st = "ok" /\ Cardinality({d.opts[i].n : i \in DOMAIN d.opts}) # Len(d.opts)
             THEN [st |-> "free", opts |-> <<>>] ELSE d

(* The layout Procmon writes. *)
Canonical(b) == LET d == Decode(b) IN d.st = "ok" /\ Matches(b, Encode(d.opts))

(* Configurations in the documented range. *)
GoodText(u) == NoTrailingNul(u) /\ Paired(u)
GoodValue(n, v) ==
  LET k == Kind(n) IN
  /\ v.t = (IF k = "ctext" THEN "text" ELSE k)
  /\ CASE v.t = "text" -> GoodText(v.u)
       [] v.t = "font" -> GoodText(v.u) /\ Len(v.u) <= 31
       [] v.t = "columns" -> \A i \in DOMAIN v.l : v.l[i] \in DOMAIN ColumnName
       [] v.t = "rules" -> \A i \in DOMAIN v.r : GoodText(v.r[i].val) /\ v.r[i].col \in DOMAIN ColumnName
                                                 /\ v.r[i].rel \in DOMAIN RuleRelationName
                                                 /\ v.r[i].act \in DOMAIN RuleActionName
       [] OTHER -> TRUE
Good(opts) == /\ \A i \in DOMAIN opts : GoodText(opts[i].n) /\ GoodValue(opts[i].n, opts[i].v)
              /\ Cardinality({opts[i].n : i \in DOMAIN opts}) = Len(opts)

(***************************************************************************)
(* Building a rule from parts given by name, by code, as a member, or not. *)
(***************************************************************************)
Codes(f) == {f[x] : x \in DOMAIN f}
Legal(part, table) ==
  CASE part.k = "name"   -> part.n \in Codes(table)
    [] part.k \in {"member", "absent"} -> TRUE
    [] part.k = "number" -> part.v \in DOMAIN table
    [] OTHER             -> FALSE
(* A part that is not given: architecture is 64-bit, then include. *)
CodeNamed(n, table) == CHOOSE c \in DOMAIN table : table[c] = n
CodeOf(part, table, default) == CASE part.k = "name"   -> CodeNamed(part.n, table)
                                  [] part.k = "absent" -> CodeNamed(default, table)
                                  [] OTHER             -> part.v
LegalRule(c) == /\ Legal(c.c, ColumnName) /\ Legal(c.r, RuleRelationName) /\ Legal(c.a, RuleActionName)
                /\ c.v.k \in {"text", "absent"}
TheRule(c) == [col |-> CodeOf(c.c, ColumnName, "ARCHITECTURE"), rel |-> CodeOf(c.r, RuleRelationName, "IS"),
               act |-> CodeOf(c.a, RuleActionName, "INCLUDE"),
               val |-> IF c.v.k = "absent" THEN <<54, 52, 45, 98, 105, 116>> ELSE c.v.u]
=============================================================================
