------------------------------- MODULE GenKept --------------------------------
(* Enumerates values for C28: <<type, bytes>>.                                 *)
EXTENDS UbxKept, Json, IOUtils, FiniteSets, SequencesExt
VARIABLE written
Rep(v, n) == [j \in 1..n |-> v]
(* doubles: 0, -0, 1, -1, 0.1, 1/3, 180, 52.1234567, smallest, subnormal, largest *)
Doubles == {Rep(0, 8), Rep(0, 7) \o <<128>>, Rep(0, 6) \o <<240, 63>>, Rep(0, 6) \o <<240, 191>>,
            <<154, 153, 153, 153, 153, 153, 185, 63>>, <<85, 85, 85, 85, 85, 85, 213, 63>>,
            <<0, 0, 0, 0, 0, 128, 102, 64>>, <<109, 116, 206, 79, 205, 15, 74, 64>>,
            <<1, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 16, 0>>, Rep(255, 6) \o <<239, 127>>,
            <<255, 255, 255, 255, 255, 255, 239, 191>>, <<1, 0, 0, 0, 0, 0, 240, 63>>}
Cat(s) == FoldRight(LAMBDA x, a : x \o a, s, <<>>)
FloatBytes(n) == {Cat(s) : s \in [1..n -> Doubles]}
Lows == {<<x, y>> : x \in {0, 1, 15, 16, 19, 30, 62, 127, 128, 240, 255}, y \in {0, 1, 2, 3, 4, 7, 8, 16, 32, 48, 64, 112, 128, 255}}
Highs == {<<0, 0>>, <<255, 255>>, <<0, 128>>, <<255, 127>>, <<86, 45>>, <<177, 22>>}
Four == {l \o h : l \in Lows, h \in Highs}
(* character length 7 or 8 bits; defined parity                              *)
UartWords == {w \in {<<x, y, 0, 0>> : x \in {128, 192}, y \in 0..63} : ParityOf(w) # "-" /\ DataBitsOf(w) # "-"}
SubWords == {<<x, y, z, 0>> : x \in 0..63, y \in 0..7, z \in {0}}
Values == UNION {{<<u, b>> : b \in FloatBytes(Len(FloatFields[u]))} : u \in DOMAIN FloatFields}
          \cup {<<"UartMode", w>> : w \in UartWords}
          \cup {<<u, w>> : u \in {"CfgItfmConfig", "CfgItfmConfig2"} \cup Numbers, w \in Four}
          \cup {<<u, w>> : u \in DOMAIN SubOf, w \in SubWords}
          \cup {<<"ResetMode", <<x>>>> : x \in ResetCodes}
          \cup {<<"CfgItfmAntennaSettings", <<x>>>> : x \in 0..2}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Values))
Init == written = TRUE
Next == FALSE /\ written' = written
Spec == Init /\ [][Next]_written
=============================================================================
