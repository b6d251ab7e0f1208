------------------------------ MODULE UbxPrint -------------------------------
(***************************************************************************)
(* The printed forms (C27): Debug of packets, blocks and structured flags, *)
(* Display of errors.  Texts which depend on the standard library's ways   *)
(* with floats and strings are those of the accessors' results, printed on *)
(* their own: the whole is composed of them.                               *)
(***************************************************************************)
EXTENDS UbxPacket

Digit(n) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>[n + 1]
(* quotient (bytes, little-endian) and remainder                             *)
DivMod(b, d) == FoldRight(LAMBDA x, q : LET n == q[2] * 256 + x IN <<<<n \div d>> \o q[1], n % d>>, b, <<<<>>, 0>>)
Zero(b) == \A i \in 1..Len(b) : b[i] = 0
RECURSIVE Digits(_, _)
Digits(b, base) == LET q == DivMod(b, base) IN
                   (IF Zero(q[1]) THEN "" ELSE Digits(q[1], base)) \o Digit(q[2])
(* two's complement                                                          *)
RECURSIVE Minus(_, _)
Minus(b, carry) == IF b = <<>> THEN <<>>
                   ELSE LET n == 255 - b[1] + carry IN <<n % 256>> \o Minus(Tail(b), n \div 256)
Decimal(t, b) == IF Signed(t) /\ b[Len(b)] >= 128 THEN "-" \o Digits(Minus(b, 1), 10) ELSE Digits(b, 10)
Hex(b) == Digits(b, 16)
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o ", " \o Joined(Tail(s))
ListText(b) == "[" \o Joined(Map(LAMBDA x : Digits(<<x>>, 10), b)) \o "]"
StructText(n, fs) == n \o " { " \o Joined(Map(LAMBDA f : f[1] \o ": " \o f[2], fs)) \o " }"

Structured == {"FixStatusInfo", "NavSatSvFlags"}
(* own: the accessor's result printed on its own                             *)
FieldText(f, b, own) ==
  CASE f.k = "plain" /\ f.t = "bytes" -> ListText(b)
    [] f.k = "plain" /\ f.t \notin {"f32", "f64", "bytes"} -> Decimal(f.t, b)
    [] f.k = "enum" -> EnumVariant(f.u, b[1])
    [] f.u \in Structured -> StructText(f.u, SubValues(f.u, b))
    [] f.u = "Option<u32>" -> IF Len(b) = 4 THEN "Some(" \o Decimal("u32", b) \o ")" ELSE "None"
    [] OTHER -> own
FieldTexts(m, pl, own) == [k \in 1..Len(m.f) |-> <<m.f[k].n, FieldText(m.f[k], BytesOf(m, k, pl), own[k])>>]
PacketText(m, pl, own) == StructText(m.n, FieldTexts(m, pl, own))
UnknownText(c, i, pl) == StructText("UbxUnknownPacketRef",
  <<<<"payload", ListText(pl)>>, <<"class", Digits(<<c>>, 10)>>, <<"msg_id", Digits(<<i>>, 10)>>>>)
ItemText(u, b, own) ==
  CASE u = "NavSatIter" -> PacketText(MsgByName["NavSatSvInfo"], b, own)
    [] u = "RxmRawxInfoIter" -> PacketText(MsgByName["RxmRawxInfo"], b, own)
    [] u = "EsfMeasDataIter" -> StructText("EsfMeasData", Map(LAMBDA e : <<e[1], Decimal("u32", e[3])>>, EsfDataItem(b)))
    [] u = "EsfRawDataIter" -> StructText("EsfRawData", Map(LAMBDA e : <<e[1], Decimal("u32", e[3])>>, EsfRawItem(b)))
Itemized == {"NavSatIter", "RxmRawxInfoIter", "EsfMeasDataIter", "EsfRawDataIter"}

(* ------------------------------------------------------------ error texts   *)
WordChars == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f",
              "A", "B", "C", "D", "E", "F"}
(* where w stands in t from position p on, as a word of its own; 0 if nowhere *)
RECURSIVE Place(_, _, _)
Place(t, w, p) ==
  IF p + Len(w) - 1 > Len(t) THEN 0
  ELSE IF /\ SubSeq(t, p, p + Len(w) - 1) = w
          /\ p = 1 \/ SubSeq(t, p-1, p-1) \notin WordChars
          /\ p + Len(w) > Len(t) \/ SubSeq(t, p + Len(w), p + Len(w)) \notin WordChars
       THEN p ELSE Place(t, w, p+1)
RECURSIVE InOrder(_, _, _)
InOrder(t, ws, p) == ws = <<>> \/ LET q == Place(t, ws[1], p) IN q # 0 /\ InOrder(t, Tail(ws), q + Len(ws[1]))
Mentions(t, w) == Place(t, w, 1) # 0
(* v: numbers as bytes, n: names                                             *)
ErrorTextOk(kind, v, n, t) ==
  CASE kind = "InvalidChecksum" -> InOrder(t, <<Hex(v[1]), Hex(v[2])>>, 1)
    [] kind = "InvalidField" -> Mentions(t, n[1]) /\ Mentions(t, n[2])
    [] kind = "InvalidPacketLen" -> Mentions(t, n[1]) /\ InOrder(t, <<Digits(v[1], 10), Digits(v[2], 10)>>, 1)
    [] kind = "OutOfMemory" -> Mentions(t, Digits(v[1], 10))
    [] kind \in {"InvalidDate", "InvalidTime", "InvalidNanoseconds"} ->
         Mentions(t, CASE kind = "InvalidDate" -> "date" [] kind = "InvalidTime" -> "time" [] OTHER -> "nanoseconds")
    [] kind = "Custom" -> Mentions(t, n[1])
    [] kind = "NotEnoughMem" -> t # ""
    [] OTHER -> FALSE

ASSUME Digits(<<0, 0>>, 10) = "0" /\ Digits(<<255, 255, 255, 255>>, 10) = "4294967295"
       /\ Decimal("i16", <<0, 128>>) = "-32768" /\ Decimal("i32", <<255, 255, 255, 255>>) = "-1"
       /\ Hex(<<52, 18>>) = "1234" /\ Hex(<<10, 0>>) = "a" /\ ListText(<<>>) = "[]" /\ ListText(<<1, 20>>) = "[1, 20]"
       /\ InOrder("expect 12, got 1", <<"12", "1">>, 1) /\ ~InOrder("expect 12, got 1", <<"1", "12">>, 1)
=============================================================================
