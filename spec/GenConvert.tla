------------------------------ MODULE GenConvert ------------------------------
(* Enumerates frames whose positions, velocities and times lie at every         *)
(* boundary of their fields, together with their high-precision parts.          *)
EXTENDS UbxConvert, Json, IOUtils, FiniteSets
VARIABLE written
Pattern(n, a) == [j \in 1..n |-> (a + j * 37) % 256]
Put(pl, o, b) == [j \in 1..Len(pl) |-> IF j > o /\ j <= o + Len(b) THEN b[j - o] ELSE pl[j]]
Blank(d, a) == [j \in 1..FixedPart(MsgByName[d]) |-> IF a = 0 THEN 0 ELSE (a + j * 37) % 256]
At(d, name) == LET m == MsgByName[d] IN OffsetTable[d][FieldNo(m, name)]
With(d, pl, name, b) == Put(pl, At(d, name), b)
FrameOf(d, pl) == <<MsgByName[d].c, MsgByName[d].i, pl>>
Rep(v, n) == [j \in 1..n |-> v]
Coarse == {Rep(0, 4), Rep(255, 4), <<1, 0, 0, 0>>, <<0, 0, 0, 128>>, Rep(255, 3) \o <<127>>,
           <<254, 255, 255, 255>>, <<0, 210, 73, 107>>, <<0, 46, 182, 148>>, <<128, 128, 128, 128>>,
           <<100, 0, 0, 0>>, <<156, 255, 255, 255>>, <<21, 205, 91, 7>>, <<235, 50, 164, 248>>}
Fine == {<<0>>, <<1>>, <<255>>, <<99>>, <<157>>, <<9>>, <<247>>, <<127>>, <<128>>, <<50>>}
Pairs(d, a, c, f) == {FrameOf(d, With(d, With(d, Blank(d, a), c, x), f, y)) : x \in Coarse, y \in Fine}
Ones(d, a, c) == {FrameOf(d, With(d, Blank(d, a), c, x)) : x \in Coarse}
Places ==
  UNION {Pairs("NavHpPosLlh", a, "lon", "lon_hp") \cup Pairs("NavHpPosLlh", a, "lat", "lat_hp")
         \cup Pairs("NavHpPosLlh", a, "height_msl", "height_hp_msl")
         \cup Ones("NavHpPosLlh", a, "height_meters")
         \cup Pairs("NavHpPosEcef", a, "ecef_x", "ecef_x_hp") \cup Pairs("NavHpPosEcef", a, "ecef_y", "ecef_y_hp")
         \cup Pairs("NavHpPosEcef", a, "ecef_z", "ecef_z_hp")
         \cup UNION {Ones("NavPosLlh", a, n) : n \in {"lon", "lat", "height_meters", "height_msl"}}
         \cup UNION {Ones("NavPvt", a, n) : n \in {"lon", "lat", "height_meters", "height_msl", "ground_speed", "heading", "heading_of_vehicle"}}
         \cup UNION {Ones("NavVelNed", a, n) : n \in {"vel_north", "vel_east", "vel_down", "speed_3d", "ground_speed", "heading"}}
       : a \in {0, 11, 200}}
U16(x) == <<x % 256, x \div 256>>
Years == {0, 1, 3, 4, 100, 400, 1582, 1899, 1900, 1970, 1999, 2000, 2023, 2024, 2100, 9999, 32768, 65532, 65535}
Dates == {<<y, mo, d>> : y \in Years, mo \in (0..13) \cup {255}, d \in {0, 1, 15, 28, 29, 30, 31, 32, 255}}
SomeDates == {<<2023, 12, 31>>, <<2024, 3, 1>>, <<0, 1, 1>>, <<65535, 12, 31>>, <<2000, 2, 29>>,
              <<1900, 3, 1>>, <<2024, 1, 1>>, <<2023, 5, 1>>, <<2023, 13, 1>>, <<2023, 2, 29>>, <<0, 0, 0>>}
Times3 == {<<h, mi, s>> : h \in {0, 1, 23, 24, 255}, mi \in {0, 1, 59, 60, 255}, s \in {0, 1, 59, 60, 61, 255}}
Nanos == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<255, 255, 255, 255>>, <<255, 201, 154, 59>>, <<0, 202, 154, 59>>,
          <<1, 202, 154, 59>>, <<1, 54, 101, 196>>, <<0, 54, 101, 196>>, <<255, 53, 101, 196>>,
          <<0, 0, 0, 128>>, <<1, 0, 0, 128>>, <<255, 255, 255, 127>>, <<0, 101, 205, 29>>, <<0, 155, 50, 226>>}
PvtAt(a, dt, tm, ns) ==
  LET p1 == With("NavPvt", Blank("NavPvt", a), "year", U16(dt[1]))
      p2 == With("NavPvt", p1, "month", <<dt[2], dt[3]>>)
      p3 == With("NavPvt", p2, "hour", <<tm[1], tm[2], tm[3]>>)
  IN FrameOf("NavPvt", With("NavPvt", p3, "nanosecond", ns))
Instants == {PvtAt(11, dt, tm, ns) : dt \in Dates, tm \in {<<0, 0, 0>>}, ns \in {<<0, 0, 0, 0>>, <<255, 255, 255, 255>>}}
            \cup {PvtAt(40, dt, tm, ns) : dt \in SomeDates, tm \in {<<0, 0, 0>>, <<23, 59, 59>>, <<12, 0, 0>>, <<0, 0, 1>>, <<24, 0, 0>>}, ns \in Nanos}
            \cup {PvtAt(40, dt, tm, ns) : dt \in {<<2023, 12, 31>>, <<2024, 3, 1>>, <<2023, 2, 29>>}, tm \in Times3,
                                          ns \in {<<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<255, 201, 154, 59>>, <<0, 202, 154, 59>>}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Places \cup Instants))
Init == written = TRUE
Next == FALSE /\ written' = written
Spec == Init /\ [][Next]_written
=============================================================================
