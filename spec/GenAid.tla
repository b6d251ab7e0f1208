-------------------------------- MODULE GenAid --------------------------------
(* Positions, times, initial flags and sequences of calls for the real builder. *)
EXTENDS UbxAid, TLC, Json, IOUtils, SequencesExt
VARIABLE done
Deep == IOEnv.TIER = "thorough"
(* exact: degrees k / 10^7 with k a multiple of 5^7, metres with whole quarters *)
Deg == {<<"k", k, 0, k % 78125 = 0>> :
          k \in {0, 1, -1, 78125, -78125, 455000000, -455000000, 900000000, -900000000, 1800000000, -1800000000,
                 471234567, -471234567, 84321987, -1799999999, 1799999999, 65536, -65536, 16777217}}
       \cup {<<"k", k, f, FALSE>> : k \in {0, -1, 471234567, -1800000000, 123456789, -98765433}, f \in {1, 499, 500, 501, 999}}
Alt == {<<"k", k, 0, k % 25 = 0>> : k \in {0, 1, -1, 25, -25, 40825, -123456, 882500, 2147483625, -2147483625, 65535}}
       \cup {<<"k", k, f, FALSE>> : k \in {0, -1, 45678, -1234}, f \in {1, 499, 500, 999}}
       \cup {<<"max">>, <<"min">>}
P(a, b, c) == <<"p", <<a, b, c>>>>
D0 == <<"k", 455000000, 0, TRUE>>
A0 == <<"k", 12325, 0, TRUE>>
Positions == {P(a, D0, A0) : a \in {x \in Deg : x[2] \in -900000000..900000000}} \cup {P(D0, b, A0) : b \in Deg} \cup {P(D0, <<"k", -78125, 0, TRUE>>, c) : c \in Alt}
T(y, mo, d, h, mi, s, n) == <<"t", <<y, mo, d, h, mi, s, n>>>>
DaysOf(y, mo) == CASE mo = 2 -> IF y % 4 = 0 THEN 29 ELSE 28 [] mo \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
Times == {T(y, mo, d, 13, 37, 59, 123456789) : y \in {2000, 2023, 2024, 2099}, mo \in 1..12, d \in {1, 10, 28}}
  \cup {T(y, mo, DaysOf(y, mo), 23, 59, 59, 999999999) : y \in (IF Deep THEN 2000..2099 ELSE {2001, 2004, 2026}), mo \in 1..12}
  \cup {T(2024, 2, 29, h, 0, 0, 0) : h \in 0..23} \cup {T(2025, 1, 1, 0, mi, 0, 1) : mi \in 0..59}
  \cup {T(2025, 10, 31, 0, 0, s, 999999999) : s \in 0..59} \cup {T(2025, 7, d, 0, 0, 0, 0) : d \in 1..31}
Flags == {<<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<220, 251, 7, 128>>}
P1 == P(<<"k", -337654321, 0, FALSE>>, <<"k", 1512345678, 250, FALSE>>, A0)
P2 == P(D0, D0, <<"k", -5025, 0, TRUE>>)
T1 == T(2031, 3, 4, 5, 6, 7, 8)
T2 == T(2030, 12, 31, 23, 58, 57, 0)
Calls == {<<op>> : op \in Positions \cup Times}
Orders == UNION {[1..n -> {P1, P2, T1, T2}] : n \in 0..(IF Deep THEN 5 ELSE 3)}
Scenarios == {<<<<0, 0, 0, 0>>, ops>> : ops \in Calls} \cup {<<f, ops>> : f \in Flags, ops \in Orders}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Scenarios))
Spec == done = TRUE /\ [][UNCHANGED done]_done
=============================================================================
