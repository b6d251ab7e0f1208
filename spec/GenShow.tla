------------------------------- MODULE GenShow --------------------------------
(* What a receiver sends to ublox-cli once it is configured (C29): every type of      *)
(* packet, NAV-PVT with every kind of fix, extreme and rounding positions, dates that  *)
(* are and are not; between damaged frames and noise; at once and in pieces.          *)
EXTENDS UbxShow, Json, IOUtils
Thorough == IOEnv.TIER = "thorough"
Set4(pl, o, v) == [k \in 1..Len(pl) |-> IF k > o /\ k <= o + Len(v) THEN v[k - o] ELSE pl[k]]
I32(v) == IF v >= 0 THEN ToLE(v, 4) ELSE LET w == ToLE(-(v + 1), 4) IN [k \in 1..4 |-> 255 - w[k]]
Zeros(n) == [k \in 1..n |-> 0]
Pvt(fix, y, mo, d, h, mi, s, nano, lon, lat, alt, speed, head) ==
  LET b == Set4(Set4(Set4(Set4(Set4(Set4(Set4(Zeros(92), 0, I32(lat)), 4, Le2(y) \o <<mo, d, h, mi, s>>), 16, I32(nano)),
             20, <<fix>>), 24, I32(lon) \o I32(lat)), 36, I32(alt)), 60, I32(speed) \o I32(head)) IN FrameOf(1, 7, b)
MaxI == 2147483647
Lons == {0, 1, -1, 49, 50, 51, -49, -50, -51, 99, 100, 123456789, -123456789, 1799999999, -1800000000, 1800000050, MaxI, -MaxI}
Alts == {0, 4, 5, 6, -4, -5, -6, 994, 995, 996, -12345, 8848860, MaxI, -MaxI}
Speeds == {0, 3, 5, 7, 994, 996, 340290, MaxI}
Heads == {0, 499, 500, 501, -499, -501, 35999999, -17999501, MaxI}
Places == {Pvt(3, 2024, 2, 29, 1, 2, 3, 0, x, -x, 5, 6, 7) : x \in Lons}
   \cup {Pvt(4, 2024, 2, 29, 1, 2, 3, 0, 1, 2, x, 6, 7) : x \in Alts}
   \cup {Pvt(3, 2024, 2, 29, 1, 2, 3, 0, 1, 2, 3, x, 7) : x \in Speeds}
   \cup {Pvt(3, 2024, 2, 29, 1, 2, 3, 0, 1, 2, 3, 4, x) : x \in Heads}
Dates == {<<2024, 2, 29>>, <<2023, 2, 29>>, <<1, 1, 1>>, <<0, 1, 1>>, <<9999, 12, 31>>, <<10000, 1, 1>>, <<65535, 12, 31>>,
          <<2024, 0, 1>>, <<2024, 13, 1>>, <<2024, 4, 31>>, <<2024, 1, 0>>, <<0, 0, 0>>}
Times3 == {<<0, 0, 0>>, <<23, 59, 59>>, <<24, 0, 0>>, <<1, 60, 0>>, <<23, 59, 60>>, <<9, 8, 7>>, <<255, 255, 255>>}
Nanos == {-MaxI - 1, 0, 1, -1, 1000, 500000000, 999999999, -999999999, 1000000000, -1000000000, MaxI}
Instants == {Pvt(5, x[1], x[2], x[3], y[1], y[2], y[3], 0, 1, 2, 3, 4, 5) : x \in Dates, y \in Times3}
   \cup {Pvt(5, x[1], x[2], x[3], 0, 0, 0, n, 1, 2, 3, 4, 5) : x \in {<<2024, 3, 1>>, <<2024, 1, 1>>, <<1, 1, 1>>}, n \in Nanos}
   \cup {Pvt(3, 2024, 0, 0, 0, 0, 60, n, 1, 2, 3, 4, 5) : n \in Nanos}
Fixes == {Pvt(f, y, 1, 1, 1, 1, 1, 0, 1, 2, 3, 4, 5) : f \in (0..7) \cup {255}, y \in {2024, 0}}
(* frames whose time the program may refuse are sent one at a time                       *)
HasTime(f) == f[3] = 1 /\ f[4] = 7 /\ Len(f) = 100 /\ f[27] \in {3, 4, 5}
Odd(f) == HasTime(f) /\ TimeErrors(SubSeq(f, 7, 98)) # {}
(* other packets: every type, a few contents each                                     *)
Fill(m, g) == LET n == IF m.rule = "fixed" THEN m.len ELSE FixedPart(m) IN
              [k \in 1..n |-> CASE g = 0 -> 0 [] g = 1 -> 255 [] g = 2 -> 1 [] OTHER -> (k * 37 + g * 11) % 256]
Others == {FrameOf(MsgByName[n].c, MsgByName[n].i, Fill(MsgByName[n], g)) :
             n \in {x \in Range(Order) : x \notin {"NavPvt", "MonVer"}}, g \in 0..(IF Thorough THEN 20 ELSE 4)}
Pad(t, n) == t \o Zeros(n - Len(t))
Str(v) == Pad(v, 30)
Vers == {FrameOf(10, 4, Str(sw) \o Pad(hw, 10) \o Flat(ex)) :
           sw \in {<<>>, <<82, 79, 77, 32, 66, 65, 83, 69>>, [k \in 1..29 |-> 48 + (k % 10)]}, hw \in {<<>>, <<48, 48, 49, 57>>},
           ex \in {<<>>, <<Str(<<65>>)>>, <<Str(<<80, 61, 49>>), Str(<<>>), Str([k \in 1..29 |-> 97 + (k % 26)])>>}}
Unknowns == {FrameOf(119, i, [k \in 1..i |-> k]) : i \in {0, 1, 7}} \cup {FrameOf(1, 7, <<1, 2, 3>>), FrameOf(5, 1, <<6>>)}
Damaged == {[f EXCEPT ![Len(f)] = (@ + 1) % 256] : f \in {FrameOf(5, 1, <<6, 1>>), FrameOf(119, 1, <<1>>)}}
   \cup {<<36, 71, 78, 13, 10>>, <<181, 181, 0>>}

Even(S) == SetToSeq({f \in S : ~Odd(f)})
All == SetToSeq(Places) \o Even(Instants) \o Even(Fixes) \o SetToSeq(Others) \o SetToSeq(Vers) \o SetToSeq(Unknowns)
Odds == SetToSeq({f \in Instants \cup Fixes : Odd(f)})
Noise == SetToSeq(Damaged)
Mixed(k) == IF k % 5 = 0 THEN Noise[((k \div 5) % Len(Noise)) + 1] \o All[k] ELSE All[k]
Per == 25
Batch(j) == Flat([k \in 1..Per |-> LET n == (j - 1) * Per + k IN IF n <= Len(All) THEN Mixed(n) ELSE <<>>])
Begin == FrameOf(238, 238, <<1, 2, 3>>)
End == FrameOf(238, 239, <<4, 5>>)
MarkText(f) == CHOOSE t \in LinesFor(f)[1][2] : TRUE
(* pieces of n bytes with a pause longer than the program's 10 ms after each             *)
RECURSIVE Pieces(_, _)
Pieces(b, n) == IF Len(b) <= n THEN <<<<"d", b>>>> ELSE <<<<"d", SubSeq(b, 1, n)>>, <<"g", 15>>>> \o Pieces(SubSeq(b, n+1, Len(b)), n)
Run(dbg, b, n) == [dbg |-> dbg, ack |-> FrameOf(5, 1, <<6, 1>>), a |-> MarkText(Begin), b |-> MarkText(End),
                   sc |-> Pieces(Begin \o b \o End, n)]
Batches == (Len(All) + Per - 1) \div Per
Whole == 100000
Every == IF Thorough THEN 1 ELSE 2
Unknown1 == FrameOf(119, 1, <<1>>)
Runs == [j \in 1..Batches |-> Run(j % 2, Batch(j), IF j % 3 = 0 THEN 97 ELSE Whole)]
  \o [j \in 1..3 |-> Run(0, Batch(7 * j) \o Batch(7 * j + 1), <<7, 40, 1240>>[j])]
  \o [j \in 1..(Len(Odds) \div Every) |-> Run(j % 2, Unknown1 \o Odds[j * Every] \o Unknown1, Whole)]
ASSUME ndJsonSerialize(IOEnv.OUT, Runs)
ASSUME PrintT(<<"frames", Len(All), "refused times", Len(Odds)>>)
VARIABLE done
Spec == done = TRUE /\ [][UNCHANGED done]_done
=============================================================================
