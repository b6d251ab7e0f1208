----------------------------- MODULE TraceDerive -----------------------------
(* Judges which definitions the real macros accept, and what the packets,       *)
(* enumerations, flags and unions they generate do (C20).                       *)
(*   d the definition, acc 1 accepted, 0 rejected, 2 accepted but the generated  *)
(*   code does not offer what the definition asks for                            *)
EXTENDS UbxDerive, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES recno, judged
vars == <<recno, judged>>
Init == recno \in 1..Len(Trace) /\ judged = FALSE
Next == judged = FALSE /\ judged' = TRUE /\ recno' = recno
Spec == Init /\ [][Next]_vars

ReadOk(d, e) == IF ValidFor(d, e[1]) THEN e[2] = "yes" /\ e[3] = SeenAll(d, e[1]) ELSE e[2] = "no"
BuildOk(d, e) == /\ Len(e[2]) = IF AllSized(d) THEN 3 ELSE 2
                 /\ \A j \in 1..Len(e[2]) : e[2][j] = BuiltPacket(d, e[1])
ZerosFor(d) == [j \in 1..Len(d.f) |-> [q \in 1..WidthOf(d.f[j].t) |-> 0]]
PacketVerdict(d, R) ==
  IF R.meta # Meta(d) THEN "metadata"
  ELSE IF \E j \in 1..Len(R.reads) : ~ReadOk(d, R.reads[j])
       THEN LET e == R.reads[CHOOSE j \in 1..Len(R.reads) : ~ReadOk(d, R.reads[j])] IN
            IF ValidFor(d, e[1]) /\ e[2] = "yes" THEN "a field is read wrongly"
            ELSE "payload of " \o ToString(Len(e[1])) \o " bytes: " \o e[2]
  ELSE IF \E j \in 1..Len(R.builds) : ~BuildOk(d, R.builds[j]) THEN "built wrongly"
  ELSE IF \E j \in 1..Len(R.dflt) : R.dflt[j] # BuiltPacket(d, ZerosFor(d)) THEN "default" ELSE "ok"
EnumEntryOk(d, b, e) ==
  IF b \in Codes20(d) \/ (Has(d, "from") /\ Has(d, "rest_reserved")) THEN e = <<b, EnumName(d, b), b>> ELSE e = <<>>
EnumVerdict(d, R) ==
  IF \A b \in 0..255 : EnumEntryOk(d, b, R.table[b+1]) THEN "ok"
  ELSE "value " \o ToString(CHOOSE b \in 0..255 : ~EnumEntryOk(d, b, R.table[b+1]))
FlagBytes(d, b) == [j \in 1..(BitsIn(d.repr) \div 8) |-> IF b \div 8 = j-1 THEN Pow2(b % 8) ELSE 0]
FlagsVerdict(d, R) ==
  IF \E j \in 1..Len(d.v) : R.consts[j] # FlagBytes(d, d.v[j][3][1]) THEN "value of a flag"
  ELSE IF R.all # [j \in 1..(BitsIn(d.repr) \div 8) |-> 255] THEN "not every bit is kept"
  ELSE IF \E j \in 1..Len(R.from) : R.from[j][1] # R.from[j][2] THEN "bits change" ELSE "ok"
UnionVerdict(d, R) ==
  IF R.longest # Longest(d) THEN "longest payload"
  ELSE IF \E j \in 1..Len(R.got) :
            LET e == R.got[j] IN
            \/ e[2] # Dispatched(d, e[1][1], e[1][2], e[1][3])
            \/ e[3] # e[1][1] \/ e[4] # e[1][2] \/ e[5] # 1
       THEN "dispatch" ELSE "ok"
Verdict(R) ==
  LET d == R.d IN
  IF ~Decided(d) THEN "ok"
  ELSE IF R.acc = 0 THEN IF Consistent(d) THEN "consistent " \o d.k \o " rejected" ELSE "ok"
  ELSE IF ~Consistent(d) THEN "inconsistent " \o d.k \o " accepted"
  ELSE IF R.acc = 2 THEN "the generated code of a " \o d.k \o " does not offer its fields"
  ELSE CASE d.k = "packet" -> PacketVerdict(d, R)
         [] d.k = "enum" -> EnumVerdict(d, R)
         [] d.k = "flags" -> FlagsVerdict(d, R)
         [] d.k = "union" -> UnionVerdict(d, R)
Accepted == judged => Verdict(Trace[recno]) = "ok"
Shown == [t |-> recno, l |-> 1, st |-> Verdict(Trace[recno])]
=============================================================================
