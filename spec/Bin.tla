--------------------------------- MODULE Bin ---------------------------------
(* Bytes, numbers and texts.                                                   *)
(*                                                                             *)
(* A byte string is a sequence over 0..255; offsets are 0-based.  TLC integers *)
(* are 32-bit, so a number wider than 31 bits is kept as its little-endian     *)
(* byte string and rendered by long division.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

At(b, o)       == b[o + 1]
Avail(b, o, n) == n >= 0 /\ o >= 0 /\ o + n <= Len(b)
Sub(b, o, n)   == SubSeq(b, o + 1, o + n)
Min2(a, b)     == IF a < b THEN a ELSE b
Max2(a, b)     == IF a > b THEN a ELSE b

(* Lengths are capped: HUGE stands for every value of 2^29 and above. *)
HUGE == 536870912

U8(b, o)  == At(b, o)
U16(b, o) == At(b, o) + 256 * At(b, o + 1)
U32(b, o) == IF At(b, o + 3) >= 32 THEN HUGE
             ELSE At(b, o) + 256 * At(b, o + 1) + 65536 * At(b, o + 2) + 16777216 * At(b, o + 3)

IsZero(b) == \A i \in DOMAIN b : b[i] = 0

(***************************************************************************)
(* Numbers as byte strings.                                                *)
(***************************************************************************)
HexDigit  == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexDigitU == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
HexByte   == [i \in 0..255 |-> HexDigit[i \div 16 + 1] \o HexDigit[(i % 16) + 1]]
HexByteU  == [i \in 0..255 |-> HexDigitU[i \div 16 + 1] \o HexDigitU[(i % 16) + 1]]

(* Lower-case hexadecimal without leading zeros. *)
RECURSIVE HexFrom(_, _)
HexFrom(b, i) == IF i = 0 THEN "" ELSE HexByte[b[i]] \o HexFrom(b, i - 1)
RECURSIVE Hex(_)
Hex(b) == IF b = <<>> THEN "0"
          ELSE LET n == Len(b) IN
               IF b[n] = 0 THEN Hex(SubSeq(b, 1, n - 1))
               ELSE IF b[n] < 16 THEN HexDigit[b[n] + 1] \o HexFrom(b, n - 1)
               ELSE HexFrom(b, n)
RECURSIVE HexUFrom(_, _)
HexUFrom(b, i) == IF i = 0 THEN "" ELSE HexByteU[b[i]] \o HexUFrom(b, i - 1)
RECURSIVE HexU(_)
HexU(b) == IF b = <<>> THEN "0"
           ELSE LET n == Len(b) IN
                IF b[n] = 0 THEN HexU(SubSeq(b, 1, n - 1))
                ELSE IF b[n] < 16 THEN HexDigitU[b[n] + 1] \o HexUFrom(b, n - 1)
                ELSE HexUFrom(b, n)
(* Fixed width: two digits per byte, most significant first. *)
HexPad(b) == HexFrom(b, Len(b))

(* Bytes in order, as text; every step halves the sequence. *)
RECURSIVE BytesHexR(_, _, _)
BytesHexR(b, lo, hi) == IF lo > hi THEN "" ELSE IF lo = hi THEN HexByte[b[lo]]
                        ELSE LET m == (lo + hi) \div 2 IN BytesHexR(b, lo, m) \o BytesHexR(b, m + 1, hi)
BytesHex(b) == BytesHexR(b, 1, Len(b))

(* Long division of a little-endian byte string by k < 2^23. *)
RECURSIVE DivR(_, _, _, _)
DivR(b, i, r, k) == IF i = 0 THEN [q |-> <<>>, r |-> r]
                    ELSE LET v == r * 256 + b[i]
                             d == DivR(b, i - 1, v % k, k)
                         IN  [q |-> Append(d.q, v \div k), r |-> d.r]
DivMod(b, k) == DivR(b, Len(b), 0, k)

RECURSIVE IntOf(_)    \* value of a byte string known to be below 2^31
IntOf(b) == IF b = <<>> THEN 0 ELSE b[1] + 256 * IntOf(Tail(b))
RECURSIVE LE(_, _)    \* n-byte string of a natural number
LE(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o LE(v \div 256, n - 1)

(* Sum of two byte strings of the same length, one byte longer. *)
RECURSIVE AddR(_, _, _, _)
AddR(a, b, i, c) == IF i > Len(a) THEN <<c>>
                    ELSE LET v == a[i] + b[i] + c IN <<v % 256>> \o AddR(a, b, i + 1, v \div 256)
Add(a, b) == AddR(a, b, 1, 0)
(* a - b, for a >= b, same length. *)
RECURSIVE MinusR(_, _, _, _)
MinusR(a, b, i, c) == IF i > Len(a) THEN <<>>
                      ELSE LET v == a[i] - b[i] - c IN
                           <<(v + 256) % 256>> \o MinusR(a, b, i + 1, IF v < 0 THEN 1 ELSE 0)
Minus(a, b) == MinusR(a, b, 1, 0)
RECURSIVE LeqR(_, _, _)
LeqR(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeqR(a, b, i - 1)
Leq(a, b) == LeqR(a, b, Len(a))
(* Product with a small factor, one byte longer. *)
RECURSIVE MulR(_, _, _, _)
MulR(a, k, i, c) == IF i > Len(a) THEN <<c>>
                    ELSE LET v == a[i] * k + c IN <<v % 256>> \o MulR(a, k, i + 1, v \div 256)
Mul(a, k) == MulR(a, k, 1, 0)

Pad(n, w) == LET s == ToString(n) IN
             CASE Len(s) >= w -> s
               [] w - Len(s) = 1 -> "0" \o s
               [] w - Len(s) = 2 -> "00" \o s
               [] w - Len(s) = 3 -> "000" \o s
               [] w - Len(s) = 4 -> "0000" \o s
               [] w - Len(s) = 5 -> "00000" \o s
               [] OTHER -> "000000" \o s

RECURSIVE Dec(_)
Dec(b) == LET d == DivMod(b, 1000000) IN
          IF IsZero(d.q) THEN ToString(d.r) ELSE Dec(d.q) \o Pad(d.r, 6)

RECURSIVE CommaR(_)
CommaR(s) == IF Len(s) <= 3 THEN s
             ELSE CommaR(SubSeq(s, 1, Len(s) - 3)) \o "," \o SubSeq(s, Len(s) - 2, Len(s))
Commas(b) == CommaR(Dec(b))

(* Signed 64-bit: sign and magnitude. *)
IsNeg(b) == b[Len(b)] >= 128
Complement(b) == [i \in DOMAIN b |-> 255 - b[i]]
Magnitude(b)  == IF IsNeg(b) THEN LET c == Complement(b) IN SubSeq(Add(c, LE(1, Len(b))), 1, Len(b)) ELSE b
SHex(b) == IF IsNeg(b) THEN "-" \o Hex(Magnitude(b)) ELSE Hex(b)

Bits(b) == {i \in 0..(8 * Len(b) - 1) : (b[i \div 8 + 1] \div (2 ^ (i % 8))) % 2 = 1}

(***************************************************************************)
(* Texts.                                                                  *)
(***************************************************************************)
(* The characters of all UTF-16 code units, as one string. *)
CharTable == JsonDeserialize(IOEnv.VERIF_CHARS)
CT(u) == SubSeq(CharTable, u + 1, u + 1)

RECURSIVE JoinR(_, _, _, _)
JoinR(ss, lo, hi, sep) == IF lo = hi THEN ss[lo]
                          ELSE LET m == (lo + hi) \div 2 IN JoinR(ss, lo, m, sep) \o sep \o JoinR(ss, m + 1, hi, sep)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE JoinR(TLCEval(ss), 1, Len(ss), sep)

Unit(b, o, i) == b[o + 2 * i + 1] + 256 * b[o + 2 * i + 2]     \* unit i of the text at o
IsHigh(u) == u >= 55296 /\ u <= 56319
IsLow(u)  == u >= 56320 /\ u <= 57343

(* Index of the first zero unit in lo..hi-1, or hi. *)
RECURSIVE FirstZero(_, _, _, _)
FirstZero(b, o, lo, hi) ==
  IF lo >= hi THEN hi
  ELSE IF hi - lo <= 8
       THEN IF b[o + 2 * lo + 1] = 0 /\ b[o + 2 * lo + 2] = 0 THEN lo ELSE FirstZero(b, o, lo + 1, hi)
       ELSE LET m == (lo + hi) \div 2
                l == FirstZero(b, o, lo, m)
            IN  IF l < m THEN l ELSE FirstZero(b, o, m, hi)

(* Text of units lo..hi-1 of a text whose units are first..last-1; a surrogate *)
(* without its partner reads as the replacement character.                     *)
Emit(b, o, i, first, last) ==
  LET u == Unit(b, o, i) IN
  IF IsHigh(u) THEN (IF i + 1 < last /\ IsLow(Unit(b, o, i + 1)) THEN CT(u) ELSE CT(65533))
  ELSE IF IsLow(u) THEN (IF i > first /\ IsHigh(Unit(b, o, i - 1)) THEN CT(u) ELSE CT(65533))
  ELSE CT(u)
RECURSIVE UnitsText(_, _, _, _, _, _)
UnitsText(b, o, lo, hi, first, last) ==
  IF lo >= hi THEN ""
  ELSE IF hi - lo = 1 THEN Emit(b, o, lo, first, last)
  ELSE LET m == (lo + hi) \div 2
       IN  UnitsText(b, o, lo, m, first, last) \o UnitsText(b, o, m, hi, first, last)

(* The text at offset o in a field of n bytes: up to a NUL, the end of the     *)
(* field or the end of the block.                                              *)
Utf16(b, o, n) == LET k == Max2(0, Min2(n, Len(b) - o) \div 2)
                      z == FirstZero(b, o, 0, k)
                  IN  UnitsText(b, o, 0, z, 0, z)
Utf16ToEnd(b, o) == Utf16(b, o, HUGE)

(* A list of NUL-terminated texts, ended by an empty one, by the end of the    *)
(* field or by the end of the block (bytes past the block read as zero).       *)
MultiSz(b, o, n) ==
  LET avail == Max2(0, (Len(b) - o) \div 2)
      limit == n \div 2
      zeros == SetToSortSeq({i \in 0..(Min2(avail, limit) - 1) :
                               b[o + 2 * i + 1] = 0 /\ b[o + 2 * i + 2] = 0}, <)
      past  == SelectSeq(<<avail, avail + 1>>, LAMBDA i : i < limit)
      ends  == zeros \o past                          \* where the texts end
      start(j) == IF j = 1 THEN 0 ELSE ends[j - 1] + 1
      empty == {j \in 2..Len(ends) : ends[j] = start(j)}
      count == IF empty = {} THEN Len(ends) ELSE Head(SetToSortSeq(empty, <)) - 1
      whole == [j \in 1..count |-> UnitsText(b, o, start(j), ends[j], start(j), ends[j])]
      rest  == IF ends = <<>> THEN 0 ELSE ends[Len(ends)] + 1
  IN  IF empty = {} /\ rest < limit THEN whole \o <<UnitsText(b, o, rest, limit, rest, limit)>> ELSE whole

Ascii(b, o, n) ==
  LET RECURSIVE R(_, _)
      R(lo, hi) == IF lo >= hi THEN "" ELSE IF hi - lo = 1 THEN CT(b[o + lo + 1])
                   ELSE LET m == (lo + hi) \div 2 IN R(lo, m) \o R(m, hi)
  IN  R(0, n)

EndsWithBackslash(s) == Len(s) > 0 /\ SubSeq(s, Len(s), Len(s)) = "\\"

(* The names of a flag word: composite entries come first in the table and     *)
(* absorb their bits.                                                          *)
MaskNames(bits, table) ==
  FoldLeft(LAMBDA a, e : IF e[1] \subseteq a.rem
                         THEN [rem |-> a.rem \ e[1], out |-> Append(a.out, e[2])] ELSE a,
           [rem |-> bits, out |-> <<>>], table).out
MaskText(bits, table, sep) == Join(MaskNames(bits, table), sep)
=============================================================================
