------------------------------- MODULE UbxShow --------------------------------
(* What ublox-cli shows of the packets it receives once it is configured (C29):     *)
(* every packet the library delivers, in order, one after the other, whatever they  *)
(* contain.  A line is <<"eq", texts it may be>>, <<"pre", how it begins>>, or        *)
(* <<"opt">>, a line (of the program's own wording) which may be there.              *)
EXTENDS UbxConvert, UbxPrint
US == INSTANCE UbxStream WITH Base <- 256, Sync1 <- 181, Sync2 <- 98, IdLen <- 2, LenLen <- 2, MaxPayload <- 8176

Le2(v) == <<v % 256, v \div 256>>
FrameOf(c, i, pl) ==
  LET body == <<c, i>> \o Le2(Len(pl)) \o pl IN <<181, 98>> \o body \o US!Fletcher(body, 0, Len(body))
(* the frames of a stream: <<class, id, payload>>                                    *)
RECURSIVE FramesFrom(_, _)
FramesFrom(s, h) ==
  LET r == US!Step(s, h, Len(s)) IN
  CASE r.k = "none" -> <<>>
    [] r.k = "frame" -> <<<<s[r.at+3], s[r.at+4], SubSeq(s, r.at+7, r.at+6+r.n)>>>> \o FramesFrom(s, r.h)
    [] OTHER -> FramesFrom(s, r.h)

(* ---- numbers with d decimals of raw / k / 10^d; halves may go either way          *)
RECURSIVE Padded(_, _)
Padded(v, n) == IF n = 0 THEN "" ELSE Padded(v \div 10, n - 1) \o Digit(v % 10)
Abs(v) == IF v < 0 THEN -v ELSE v
Fixed(v, d) == (IF v < 0 THEN "-" ELSE "") \o ToString(Abs(v) \div 10 ^ d) \o "." \o Padded(Abs(v) % 10 ^ d, d)
Rounded(raw, k) == LET q == raw \div k  r == raw % k IN
                   IF 2 * r < k THEN {q} ELSE IF 2 * r > k THEN {q + 1} ELSE {q, q + 1}
Texts(raw, k, d) == {Fixed(v, d) : v \in Rounded(raw, k)}
                    \cup (IF 0 \in Rounded(raw, k) /\ raw < 0 THEN {"-" \o Fixed(0, d)} ELSE {})
Num(pl, name) == IntOf(BytesAt("NavPvt", name, pl))

(* ---- instants, as RFC 3339 with as many groups of three digits as are needed      *)
YearText(y) == IF y < 0 THEN "-" \o Padded(-y, 4) ELSE IF y > 9999 THEN "+" \o ToString(y) ELSE Padded(y, 4)
Fraction(n) == IF n = 0 THEN "" ELSE "." \o (IF n % 1000000 = 0 THEN Padded(n \div 1000000, 3)
               ELSE IF n % 1000 = 0 THEN Padded(n \div 1000, 6) ELSE Padded(n, 9))
InstantText(t) == YearText(t[1]) \o "-" \o Padded(t[2], 2) \o "-" \o Padded(t[3], 2) \o "T" \o Padded(t[4], 2)
                  \o ":" \o Padded(t[5], 2) \o ":" \o Padded(t[6], 2) \o Fraction(t[7]) \o "Z"

PvtLines(pl) ==
  LET fix == NatAt("NavPvt", "fix_type", pl) IN
  (IF fix \in {3, 4}
   THEN <<<<"eq", {"Latitude: " \o a \o " Longitude: " \o o \o " Altitude: " \o h \o "m" :
                     a \in Texts(Num(pl, "lat"), 100, 5), o \in Texts(Num(pl, "lon"), 100, 5),
                     h \in Texts(Num(pl, "height_msl"), 10, 2)}>>,
          <<"eq", {"Speed: " \o v \o " m/s Heading: " \o w \o " degrees" :
                     v \in Texts(Num(pl, "ground_speed"), 10, 2), w \in Texts(Num(pl, "heading"), 1000, 2)}>>,
          <<"pre", "Sol: NavPvt { itow: " \o Decimal("u32", BytesAt("NavPvt", "itow", pl)) \o ", ">>>>
   ELSE <<>>)
  \o (IF fix \notin {3, 4, 5} THEN <<>>
      ELSE IF TimeErrors(pl) = {} THEN <<<<"eq", {"Time: " \o InstantText(InstantOf(pl))}>>>>
      ELSE <<<<"opt">>>>)

Printable == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ"      \* 32..90 but 34
Chr(x) == IF x \in 97..122 THEN SubSeq("abcdefghijklmnopqrstuvwxyz", x - 96, x - 96)
          ELSE IF x <= 33 THEN SubSeq(Printable, x - 31, x - 31) ELSE SubSeq(Printable, x - 32, x - 32)
Text(b) == FoldLeft(LAMBDA t, x : t \o Chr(x), "", b)
VerLines(pl) ==
  LET m == MsgByName["MonVer"]
      sw == Text(CStr(BytesOf(m, 1, pl)))  hw == Text(CStr(BytesOf(m, 2, pl)))
      ext == Map(LAMBDA c : "\"" \o Text(CStr(c)) \o "\"", Chunks(From(pl, 40), 30)) IN
  <<<<"eq", {"SW version: " \o sw \o " HW version: " \o hw \o "; Extensions: [" \o Joined(ext) \o "]"}>>,
    <<"pre", "MonVer { software_version: \"" \o sw \o "\", hardware_version: \"" \o hw \o "\", extension: ">>>>

(* texts which this specification composes itself                                    *)
Plainly(f) == \/ f.k = "plain" /\ f.t \notin {"f32", "f64"}
              \/ f.k = "enum" \/ f.u \in Structured \cup {"Option<u32>"}
Simple(m) == \A k \in 1..Len(m.f) : Plainly(m.f[k])
LinesOf(c, i, pl) ==
  LET d == Dispatch(c, i, pl) IN
  CASE d = "Unknown" -> <<<<"eq", {"Unknown(" \o UnknownText(c, i, pl) \o ")"}>>>>
    [] d = "NavPvt" -> PvtLines(pl)
    [] d = "MonVer" -> VerLines(pl)
    [] Simple(MsgByName[d]) ->
         <<<<"eq", {d \o "(" \o PacketText(MsgByName[d], pl, [k \in 1..Len(MsgByName[d].f) |-> ""]) \o ")"}>>>>
    [] OTHER -> <<<<"pre", d \o "(" \o d \o " { " \o MsgByName[d].f[1].n \o ": ">>>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
LinesFor(s) == Flat(Map(LAMBDA f : LinesOf(f[1], f[2], f[3]), FramesFrom(s, 0)))

(* a packet whose time is none                                                        *)
NoTime(f) == Dispatch(f[1], f[2], f[3]) = "NavPvt" /\ NatAt("NavPvt", "fix_type", f[3]) \in {3, 4, 5} /\ TimeErrors(f[3]) # {}
(* the lines up to and with those of the first such packet, which says nothing of time *)
LinesToNoTime(s) ==
  LET fs == FramesFrom(s, 0)
      k == CHOOSE k \in 1..Len(fs) : NoTime(fs[k]) /\ \A j \in 1..(k-1) : ~NoTime(fs[j])
      ls == Flat(Map(LAMBDA f : LinesOf(f[1], f[2], f[3]), SubSeq(fs, 1, k)))
  IN SubSeq(ls, 1, Len(ls) - 1)

Is(t, x) == CASE x[1] = "eq" -> t \in x[2]
              [] x[1] = "pre" -> Len(t) >= Len(x[2]) /\ SubSeq(t, 1, Len(x[2])) = x[2]
(* 0 if the lines are as expected from line a and expectation e on, or the last line  *)
(* at which they can be told to differ                                               *)
RECURSIVE Differ(_, _, _, _)
Differ(ls, xs, a, e) ==
  IF e > Len(xs) THEN IF a > Len(ls) THEN 0 ELSE a
  ELSE IF xs[e][1] = "opt" THEN LET p == Differ(ls, xs, a, e+1) IN
                                IF p = 0 \/ a > Len(ls) THEN p ELSE Differ(ls, xs, a+1, e+1)
  ELSE IF a > Len(ls) \/ ~Is(ls[a], xs[e]) THEN a
  ELSE Differ(ls, xs, a+1, e+1)

ASSUME Texts(123456789, 100, 5) = {"12.34568"} /\ Texts(-50, 100, 5) = {"-0.00001", "0.00000", "-0.00000"}
       /\ Texts(-123449, 10, 2) = {"-123.45"} /\ Texts(2147483647, 100, 5) = {"214.74836"}
       /\ InstantText(<<2024, 2, 29, 3, 4, 5, 500000000>>) = "2024-02-29T03:04:05.500Z"
       /\ InstantText(<<0, 1, 1, 0, 0, 0, 1>>) = "0000-01-01T00:00:00.000000001Z"
       /\ Text(<<32, 33, 35, 65, 90, 97, 122, 48>>) = " !#AZaz0"
=============================================================================
