------------------------------ MODULE UbxConvert ------------------------------
(* Positions, velocities and times derived from packets (C17), in exact        *)
(* integer arithmetic: a quantity is the number of its finest units, as the    *)
(* eight bytes (least significant first) of its two's complement.              *)
EXTENDS UbxPacket

(* ------------------------------------------ arithmetic modulo 2^64 on bytes  *)
RECURSIVE MulFrom(_, _, _, _)
MulFrom(b, k, at, carry) ==
  IF at > Len(b) THEN <<>>
  ELSE LET x == b[at] * k + carry IN <<x % 256>> \o MulFrom(b, k, at+1, x \div 256)
Times(b, k) == MulFrom(b, k, 1, 0)
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, at, carry) ==
  IF at > Len(a) THEN <<>>
  ELSE LET x == a[at] + b[at] + carry IN <<x % 256>> \o AddFrom(a, b, at+1, x \div 256)
Plus(a, b) == AddFrom(a, b, 1, 0)

(* the raw value of a field of a message, sign-extended                        *)
FieldNo(m, name) == CHOOSE k \in 1..Len(m.f) : m.f[k].n = name
RawOf(d, name, pl) == LET m == MsgByName[d]
                          k == FieldNo(m, name)
                      IN Wide(m.f[k].t, BytesOf(m, k, pl))
BytesAt(d, name, pl) == LET m == MsgByName[d] IN BytesOf(m, FieldNo(m, name), pl)
NatAt(d, name, pl) == LET b == BytesAt(d, name, pl) IN IF Len(b) = 1 THEN b[1] ELSE b[1] + 256 * b[2]

(* -------------------------------------------------- positions, velocities    *)
(* conversion -> the quantities, each in the unit named                        *)
PositionOf(d, pl) ==
  IF d = "NavHpPosLlh"
  THEN <<<<"lon", "1e-9", Plus(Times(RawOf(d, "lon", pl), 100), RawOf(d, "lon_hp", pl))>>,
         <<"lat", "1e-9", Plus(Times(RawOf(d, "lat", pl), 100), RawOf(d, "lat_hp", pl))>>,
         <<"alt", "1e-4", Plus(Times(RawOf(d, "height_msl", pl), 10), RawOf(d, "height_hp_msl", pl))>>>>
  ELSE <<<<"lon", "1e-7", RawOf(d, "lon", pl)>>, <<"lat", "1e-7", RawOf(d, "lat", pl)>>,
         <<"alt", "1e-3", RawOf(d, "height_msl", pl)>>>>
EcefOf(d, pl) ==
  <<<<"x", "1e-4", Plus(Times(RawOf(d, "ecef_x", pl), 100), RawOf(d, "ecef_x_hp", pl))>>,
    <<"y", "1e-4", Plus(Times(RawOf(d, "ecef_y", pl), 100), RawOf(d, "ecef_y_hp", pl))>>,
    <<"z", "1e-4", Plus(Times(RawOf(d, "ecef_z", pl), 100), RawOf(d, "ecef_z_hp", pl))>>>>
VelocityOf(d, pl) ==
  <<<<"speed", IF d = "NavVelNed" THEN "1e-2" ELSE "1e-3", RawOf(d, "ground_speed", pl)>>,
    <<"heading", "1e-5", RawOf(d, "heading", pl)>>>>
(* <<name of the conversion, quantities>> offered for a packet type            *)
Conversions(d, pl) ==
  CASE d \in {"NavPosLlh", "NavHpPosLlh"} -> <<<<"Position", PositionOf(d, pl)>>>>
    [] d = "NavHpPosEcef" -> <<<<"PositionECEF", EcefOf(d, pl)>>>>
    [] d = "NavVelNed" -> <<<<"Velocity", VelocityOf(d, pl)>>>>
    [] d = "NavPvt" -> <<<<"Position", PositionOf(d, pl)>>, <<"Velocity", VelocityOf(d, pl)>>>>
    [] OTHER -> <<>>

(* ------------------------------------------------------------------- times   *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, mo) == CASE mo = 2 -> IF Leap(y) THEN 29 ELSE 28
                   [] mo \in {4, 6, 9, 11} -> 30
                   [] OTHER -> 31
DateOk(y, mo, d) == mo \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, mo)
TimeOk(h, mi, s) == h < 24 /\ mi < 60 /\ s < 60
(* instants are <<year, month, day, hour, minute, second, nanosecond>>         *)
DayBefore(y, mo, d) == IF d > 1 THEN <<y, mo, d - 1>>
                       ELSE IF mo > 1 THEN <<y, mo - 1, DaysIn(y, mo - 1)>>
                       ELSE <<y - 1, 12, 31>>
SecondBefore(y, mo, d, h, mi, s) ==
  IF s > 0 THEN <<y, mo, d, h, mi, s - 1>>
  ELSE IF mi > 0 THEN <<y, mo, d, h, mi - 1, 59>>
  ELSE IF h > 0 THEN <<y, mo, d, h - 1, 59, 59>>
  ELSE DayBefore(y, mo, d) \o <<23, 59, 59>>
(* |nanoseconds| < 10^9 = 0x3B9ACA00, on the two's complement bytes            *)
Billion == 1000000000
(* the integer itself; only for values above -2^31                             *)
IntOf(b) == IF b[4] < 128 THEN b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]
            ELSE - (1 + (255 - b[1]) + 256 * (255 - b[2]) + 65536 * (255 - b[3]) + 16777216 * (255 - b[4]))
NanosOk(b) == b # <<0, 0, 0, 128>> /\ IntOf(b) < Billion /\ IntOf(b) > -Billion
InstantOf(pl) ==
  LET y == NatAt("NavPvt", "year", pl)  mo == NatAt("NavPvt", "month", pl)
      d == NatAt("NavPvt", "day", pl)   h == NatAt("NavPvt", "hour", pl)
      mi == NatAt("NavPvt", "min", pl)  s == NatAt("NavPvt", "sec", pl)
      n == IntOf(BytesAt("NavPvt", "nanosecond", pl))
  IN IF n >= 0 THEN <<y, mo, d, h, mi, s, n>>
     ELSE SecondBefore(y, mo, d, h, mi, s) \o <<Billion + n>>
TimeErrors(pl) ==
  (IF DateOk(NatAt("NavPvt", "year", pl), NatAt("NavPvt", "month", pl), NatAt("NavPvt", "day", pl))
   THEN {} ELSE {"InvalidDate"})
  \cup (IF TimeOk(NatAt("NavPvt", "hour", pl), NatAt("NavPvt", "min", pl), NatAt("NavPvt", "sec", pl))
        THEN {} ELSE {"InvalidTime"})
  \cup (IF NanosOk(BytesAt("NavPvt", "nanosecond", pl)) THEN {} ELSE {"InvalidNanoseconds"})

(* ---------------------------------------------------------- sanity of these  *)
RECURSIVE SumDays(_, _)
SumDays(y, mo) == IF mo = 0 THEN 0 ELSE DaysIn(y, mo) + SumDays(y, mo - 1)
ASSUME \A y \in {0, 4, 1600, 2000, 2024, 2400} : SumDays(y, 12) = 366
ASSUME \A y \in {1, 1900, 2023, 2100, 65535} : SumDays(y, 12) = 365
ASSUME Times(<<255, 255, 255, 255, 255, 255, 255, 255>>, 100) = <<156, 255, 255, 255, 255, 255, 255, 255>>
ASSUME Plus(<<255, 255, 255, 255, 255, 255, 255, 255>>, <<1, 0, 0, 0, 0, 0, 0, 0>>) = [j \in 1..8 |-> 0]
ASSUME IntOf(<<0, 202, 154, 59>>) = Billion /\ IntOf(<<255, 255, 255, 255>>) = -1
ASSUME SecondBefore(2024, 3, 1, 0, 0, 0) = <<2024, 2, 29, 23, 59, 59>>
ASSUME SecondBefore(0, 1, 1, 0, 0, 0) = <<-1, 12, 31, 23, 59, 59>>
=============================================================================
