----------------------------- MODULE GenPackets ------------------------------
(* Enumerates frames for the real code from the catalogue: for every message    *)
(* every boundary length, every field at its extremes with all other bytes      *)
(* distinct, every code of every enumeration, every single flag, every variant  *)
(* of every sub-bit-field, every number of blocks.  Frames are <<class, id,     *)
(* payload>>; TLC writes them as lines of JSON.                                 *)
EXTENDS UbxPacket, Json, IOUtils, FiniteSets
VARIABLE written
Deep == IOEnv.TIER = "thorough"

(* distinct, mostly "wrong" bytes: any shift or swap shows                      *)
Pattern(n, a) == [j \in 1..n |-> (a + j * 37) % 256]
Put(pl, o, b) == [j \in 1..Len(pl) |-> IF j > o /\ j <= o + Len(b) THEN b[j - o] ELSE pl[j]]

(* a valid value for each validated field                                       *)
FixUp(f) ==
  CASE f.k = "enum" /\ EnumByName[f.u].rest = "error" -> <<EnumByName[f.u].v[1][1]>>
    [] f.u = "UartMode" -> <<192, 8, 0, 0>>
    [] f.u = "TimTm2Flags" -> <<17>>
    [] f.u = "&str" -> [j \in 1..f.w |-> IF j = f.w - 3 THEN 0 ELSE 64 + j]
    [] OTHER -> <<>>
RECURSIVE FixAll(_, _, _)
FixAll(m, k, pl) ==
  IF k > Len(m.f) THEN pl
  ELSE LET b == FixUp(m.f[k]) IN
       FixAll(m, k+1, IF b = <<>> THEN pl ELSE Put(pl, SumWidths(m.f, k-1), b))
(* EsfMeas: flags without words or calibration tag, so that the length is valid *)
EsfFix(m, pl) == IF m.n = "EsfMeas" THEN Put(pl, 4, <<pl[5] - 8 * ((pl[5] \div 8) % 2), pl[6] % 8>>) ELSE pl
Base(m, a) == EsfFix(m, FixAll(m, 1, Pattern(FixedPart(m), a)))

Rep(v, n) == [j \in 1..n |-> v]
Extremes(w) == {Rep(0, w), Rep(255, w), Rep(0, w-1) \o <<128>>, Rep(255, w-1) \o <<127>>,
                <<1>> \o Rep(0, w-1), <<255>> \o Rep(0, w-1), Rep(0, w-1) \o <<1>>, Rep(128, w)}
(* the number with only bit i set, in w bytes                                   *)
ToLE2(i, w) == [j \in 1..w |-> IF j = i \div 8 + 1 THEN Pow2(i % 8) ELSE 0]
FieldValues(f) ==
  CASE f.w = 0 -> {}
    [] f.k = "enum" -> {<<v>> : v \in Codes(EnumByName[f.u]) \cup (0..16) \cup {31, 63, 64, 127, 128, 254, 255}}
    [] f.k = "flags" -> {ToLE2(i, f.w) : i \in 0..(8 * f.w - 1)} \cup Extremes(f.w)
    [] f.u \in DOMAIN SubFields /\ f.w = 1 -> {<<v>> : v \in 0..255}
    [] f.u \in Words -> {ToLE2(i, f.w) : i \in 0..(8 * f.w - 1)} \cup Extremes(f.w)
                        \cup (IF f.u = "UartMode" THEN {<<64 * a, 2 * p + 16 * s, 0, 0>> : a \in 0..3, p \in 0..7, s \in 0..3} ELSE {})
    [] f.u = "&str" -> {}
    [] OTHER -> Extremes(f.w)

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Seeds == IF Deep THEN {11, 96, 200} ELSE {11}
FieldFrames(m) ==
  UNION {{<<m.c, m.i, Put(Base(m, a), SumWidths(m.f, k-1), v)>> : v \in FieldValues(m.f[k])} :
         k \in 1..Len(m.f), a \in Seeds}
LengthFrames(m) ==
  {<<m.c, m.i, FixAll(m, 1, Pattern(n, 11))>> :
     n \in {z \in {0, 1, FixedPart(m) - 1, FixedPart(m), FixedPart(m) + 1, 2 * FixedPart(m), m.len, m.len + 1} : z >= 0 /\ z <= 8176}}
WholeFrames(m) ==
  {<<m.c, m.i, Base(m, a)>> : a \in {0, 100, 200}}
  \cup {<<m.c, m.i, EsfFix(m, FixAll(m, 1, Rep(v, FixedPart(m))))>> : v \in {0, 1, 127, 128, 255}}
  \cup {<<m.c, m.i, Rep(v, FixedPart(m))>> : v \in {0, 255}}

(* repeated blocks: n complete blocks and r surplus bytes                       *)
Tail2(m) == CASE m.n = "NavSat" -> 12 [] m.n = "RxmRawx" -> 32 [] m.n = "RxmSfrbx" -> 4 [] m.n = "EsfRaw" -> 8 [] OTHER -> 0
BlockFrames(m) ==
  IF Tail2(m) = 0 THEN {}
  ELSE LET b == Tail2(m) IN
       {<<m.c, m.i, Base(m, 3) \o Pattern(n * b + r, 5)>> :
          n \in {0, 1, 2, 3, 7} \cup (IF Deep THEN {16, 32, 255 \div (b \div 4)} ELSE {16}), r \in {0, 1, b - 1, b \div 2}}
(* NAV-SAT: every sub-bit-field of the block's flags                            *)
SvFrames ==
  {<<1, 53, Rep(7, 8) \o Pattern(8, 9) \o v \o Pattern(12, 77)>> :
     v \in {<<q, o, 0, 0>> : q \in 0..255, o \in {0, 255}} \cup {<<0, o, 0, 0>> : o \in 0..255}
           \cup {<<0, 0, o, 0>> : o \in 0..255} \cup {<<255, 255, 255, o>> : o \in {0, 1, 128, 255}}}
EsfFrames ==
  {<<16, 2, Pattern(4, 1) \o <<8 * c + 1, 8 * w + 2>> \o Pattern(2, 40) \o Pattern(n, 50)>> :
     c \in {0, 1}, w \in {0, 1, 2, 3, 5, 31},
     n \in {0, 4, 8, 12, 16, 20, 24, 124, 128, 132} \cup {1, 2, 3, 5, 7, 11}}

(* strings                                                                      *)
Texts(n) == {Rep(65, n), Rep(65, n-1) \o <<0>>, <<0>> \o Rep(255, n-1), <<65, 0>> \o Rep(255, n-2),
             <<255, 0>> \o Rep(65, n-2), <<194, 160, 0>> \o Rep(66, n-3), <<194, 0>> \o Rep(66, n-2),
             <<226, 130, 172, 0>> \o Rep(0, n-4), <<240, 159, 155, 176, 0>> \o Rep(1, n-5),
             <<192, 128, 0>> \o Rep(0, n-3), <<237, 160, 128, 0>> \o Rep(0, n-4),
             <<239, 191, 191, 0>> \o Rep(0, n-4), <<244, 144, 128, 128, 0>> \o Rep(0, n-5),
             [j \in 1..n |-> IF j = n THEN 0 ELSE 64 + j]}
Good(n) == [j \in 1..n |-> IF j > n - 2 THEN 0 ELSE 96 + (j % 26)]
VerFrames ==
  {<<10, 4, s \o Good(10)>> : s \in Texts(30)}
  \cup {<<10, 4, Good(30) \o s>> : s \in Texts(10)}
  \cup {<<10, 4, Good(30) \o Good(10) \o s>> : s \in Texts(30)}
  \cup {<<10, 4, Good(30) \o Good(10) \o Good(30) \o s \o Good(30)>> : s \in Texts(30)}
  \cup {<<10, 4, Good(30) \o Good(10) \o Rep(0, n)>> : n \in {1, 29, 31, 60, 61, 89, 90, 1200}}
  \cup {<<10, 4, Good(30) \o SubSeq(Good(10), 1, n)>> : n \in 0..9}
(* long payloads: many blocks, strings up to the largest payload, with the      *)
(* damage only in the last block                                                *)
VerExt(n) == Cat([k \in 1..n |-> Good(30)])
LongFrames ==
  {<<10, 4, Good(30) \o Good(10) \o VerExt(n) \o t>> :
     n \in {40, 130, 255} \cup (IF Deep THEN {20, 31, 63, 64, 127, 128, 256, 270} ELSE {}),
     t \in {Good(30), Rep(65, 30), <<194, 0>> \o Rep(66, 28), Good(29)}}
  \cup {<<4, i, Rep(65, n) \o t>> : i \in {0, 4}, n \in {254, 255, 256, 1023, 8172} \cup (IF Deep THEN {511, 512, 4095, 4096} ELSE {}),
                                   t \in {<<66>>, <<128>>, <<226, 130, 172>>, <<226, 130>>}}
LongBlocks(m) ==
  IF Tail2(m) = 0 THEN {}
  ELSE LET b == Tail2(m) IN
       {<<m.c, m.i, Base(m, 3) \o Pattern(n * b + r, 5)>> :
          n \in {72} \cup (IF Deep THEN {128, 129, 255} ELSE {}), r \in {0, b - 1}}
InfFrames ==
  UNION {{<<4, i, s>> : s \in {<<>>, <<0>>, <<65>>, <<255>>, <<65, 0, 66>>, <<194, 160>>, <<194>>, <<226, 130, 172>>,
                               <<237, 160, 128>>, <<240, 144, 128, 128>>, <<240, 143, 128, 128>>, <<244, 143, 191, 191>>,
                               <<65, 10, 66, 128>>, <<34, 92, 31, 127>>, Rep(72, 300), Rep(72, 1300)}} : i \in 0..4}

(* class and id pairs of no message                                             *)
Others == {<<c, i, Pattern(n, 17)>> :
             c \in {0, 1, 2, 5, 6, 10, 11, 13, 16, 19, 33, 39, 40, 128, 255}, i \in {0, 1, 2, 7, 30, 53, 98, 99, 138, 255}, n \in {0, 2, 8}}

Frames ==
  LET ms == [k \in 1..Len(Order) |-> MsgByName[Order[k]]] IN
  UNION {FieldFrames(ms[k]) \cup LengthFrames(ms[k]) \cup WholeFrames(ms[k]) \cup BlockFrames(ms[k]) \cup LongBlocks(ms[k]) : k \in 1..Len(ms)}
  \cup SvFrames \cup LongFrames \cup EsfFrames \cup VerFrames \cup InfFrames \cup Others
  \cup {<<c[1], c[2], <<>>>> : c \in DOMAIN CandidateTable}
(* Sweeps: one byte through all its values                                      *)
SweepOffsets(m) == {o \in 0..(FixedPart(m) - 1) :
                      \/ Deep
                      \/ \E k \in 1..Len(m.f) : /\ FixUp(m.f[k]) # <<>> 
                                                /\ o >= SumWidths(m.f, k-1) /\ o < SumWidths(m.f, k)
                      \/ m.n = "EsfMeas"}
Sweeps == UNION {{<<m.c, m.i, Base(m, 3), o>> : o \in SweepOffsets(m)} : m \in {MsgByName[Order[k]] : k \in 1..Len(Order)}}
(* every length: all prefixes of one long payload (the offset is its length)    *)
LongTo == IF Deep THEN 4200 ELSE 1500
Longest(m) == IF m.n = "MonVer" THEN SubSeq(Good(30) \o Good(10) \o VerExt(LongTo \div 30), 1, LongTo)
              ELSE EsfFix(m, FixAll(m, 1, Pattern(LongTo, 11)))
Lengths == {<<m.c, m.i, Longest(m), LongTo>> : m \in {MsgByName[Order[k]] : k \in 1..Len(Order)}}

(* Typed: every value of every byte of every enumeration and flag set           *)
TypedFrames(m) ==
  UNION {{<<m.c, m.i, Put(Base(m, 11), SumWidths(m.f, k-1), [j \in 1..m.f[k].w |-> IF j = q THEN v ELSE z])>> :
            v \in 0..255, q \in 1..m.f[k].w, z \in IF m.f[k].w = 1 THEN {0} ELSE {0, 255}} :
         k \in {k \in 1..Len(m.f) : m.f[k].k \in {"enum", "flags"}}}
  \cup (IF m.n = "RxmRawx" THEN {<<m.c, m.i, Base(m, 3) \o [Pattern(32, 5) EXCEPT ![o] = v]>> : v \in 0..255, o \in 28..31} ELSE {})
ASSUME IF IOEnv.OUT3 = "" THEN TRUE
       ELSE ndJsonSerialize(IOEnv.OUT3, SetToSeq(UNION {TypedFrames(MsgByName[Order[k]]) : k \in 1..Len(Order)}))
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Frames))
ASSUME ndJsonSerialize(IOEnv.OUT2, SetToSeq(Sweeps \cup Lengths))
Spec == written = TRUE /\ [][FALSE]_written
=============================================================================
