------------------------------ MODULE GenConfig -------------------------------
(* Every item with every interesting value; lists of items for CFG-VALSET.      *)
EXTENDS UbxConfig, Json, IOUtils, FiniteSets
VARIABLE written
Rep(v, n) == [j \in 1..n |-> v]
Pattern(n, a) == [j \in 1..n |-> (a + j * 37) % 256]
Pow2(n) == 2^n
Numbers(w) == {Rep(0, w), Rep(255, w), Rep(0, w-1) \o <<128>>, Rep(255, w-1) \o <<127>>,
               <<1>> \o Rep(0, w-1), Rep(0, w-1) \o <<1>>, Pattern(w, 90), Pattern(w, 201)}
Values(it) ==
  CASE Symbolic(it.ty) -> {<<it.n, <<>>, Variants[it.ty][c]>> : c \in 1..Len(Variants[it.ty])}
    [] it.ty = "bool" -> {<<it.n, <<b>>, "">> : b \in {0, 1}}
    [] it.ty = "CfgInfMask" -> {<<it.n, <<b>>, "">> : b \in {Pow2(k) : k \in 0..7} \cup {0, 31, 85, 170, 255}}
    [] OTHER -> {<<it.n, b, "">> : b \in Numbers(Width(it.ty))}
AllValues == UNION {Values(Items[j]) : j \in 1..Len(Items)}
(* one value per size, for lists                                                *)
V1 == <<"Uart1Enabled", <<1>>, "">>
V2 == <<"Uart2Parity", <<>>, "Odd">>
V3 == <<"RateMeas", <<232, 3>>, "">>
V4 == <<"Uart1Baudrate", <<0, 194, 1, 0>>, "">>
V5 == <<"UsbVendorStr0", <<1, 2, 3, 4, 5, 6, 7, 8>>, "">>
V6 == <<"TpAntCableDelay", <<206, 255>>, "">>
Pool == {V1, V2, V3, V4, V5, V6}
RECURSIVE Lists(_)
Lists(n) == IF n = 0 THEN {<<>>} ELSE LET q == Lists(n-1) IN q \cup {Append(s, v) : s \in {z \in q : Len(z) = n-1}, v \in Pool}
Cycle(n) == [j \in 1..n |-> <<V1, V2, V3, V4, V5, V6>>[(j % 6) + 1]]
Before == {<<>>, <<7>>, <<181, 98>>, <<181, 98, 6, 138, 4, 0, 1, 2, 3, 4, 5, 6>>, Pattern(40, 3)}
Header == {<<<<0>>, <<1>>, <<0, 0>>>>, <<<<255>>, <<255>>, <<254, 255>>>>, <<<<1>>, <<6>>, <<52, 18>>>>}
(* <<version, layers, reserved1>>, bytes already in the buffer, items           *)
ValSets == {<<h, <<>>, s>> : h \in Header, s \in Lists(2)}
           \cup {<<CHOOSE h \in Header : h[1] = <<1>>, p, s>> : p \in Before, s \in Lists(2)}
           \cup {<<CHOOSE h \in Header : h[1] = <<0>>, p, Cycle(n)>> : p \in {<<>>, Pattern(300, 5)}, n \in {3, 7, 28, 29, 30, 31, 64, 65, 300}}
           \* payload lengths 65534, 65535: the largest of the length field
           \cup {<<CHOOSE h \in Header : h[1] = <<1>>, p, [j \in 1..5460 |-> V5] \o s>> :
                   p \in {<<>>, <<9, 9>>}, s \in {<<V2, V3>>, <<V1, V1>>}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(AllValues))
ASSUME ndJsonSerialize(IOEnv.OUT2, SetToSeq(ValSets))
Spec == written = TRUE /\ [][FALSE]_written
=============================================================================
