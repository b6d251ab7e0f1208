-------------------------------- MODULE UbxAid --------------------------------
(* Aiding data (AID-INI): what the message says after an application has set    *)
(* a position and a time on a builder, in any order and any number of times     *)
(* (C25).  The protocol: coordinates in 1e-7 degree and centimetres with flags  *)
(* 0 (position given) and 5 (latitude, longitude, altitude instead of ECEF);    *)
(* date as YYMM, time as DDHHMMSS and nanoseconds with flags 1 (time given)     *)
(* and 10 (UTC instead of GPS week).                                            *)
EXTENDS Integers, Sequences

(* ------------------------------------------------------------------ numbers  *)
TwoTo(n) == 2^n
RECURSIVE LE(_, _)
LE(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o LE(v \div 256, n - 1)      \* two's complement: \div rounds down
WithBit(b, k) ==
  LET at == k \div 8 + 1 bit == TwoTo(k % 8)
  IN IF (b[at] \div bit) % 2 = 1 THEN b ELSE [b EXCEPT ![at] = @ + bit]

(* ------------------------------------------------------------------- fields  *)
Names == <<"lat", "lon", "alt", "pos_accuracy", "time_cfg", "ym", "hms", "ns",
           "tm_accuracy_ms", "tm_accuracy_ns", "clk_drift", "clk_accuracy", "flags">>
Widths == <<4, 4, 4, 4, 2, 2, 4, 4, 4, 4, 4, 4, 4>>
RECURSIVE At(_)
At(k) == IF k = 1 THEN 0 ELSE At(k - 1) + Widths[k - 1]
Class == 11
Id == 1
Size == 48
ASSUME At(13) + 4 = Size

(* the message as a record of byte strings                                      *)
FromPayload(pl) == [k \in 1..13 |-> SubSeq(pl, At(k) + 1, At(k) + Widths[k])]
Untouched(old, new, ks) == \A k \in 1..13 \ ks : new[k] = old[k]

(* --------------------------------------------------------------- operations  *)
(* A coordinate is <<k, f, exact>>: k units and f thousandths of a unit;        *)
(* exact: its product with the scale is free of rounding.  <<"max">>, <<"min">> *)
(* are beyond the range.  The field is within one unit, never off if exact.     *)
MayEncode(x) ==
  CASE x[1] = "max" -> {<<255, 255, 255, 127>>}
    [] x[1] = "min" -> {<<0, 0, 0, 128>>}
    [] x[1] = "k" -> IF x[4] THEN {LE(x[2], 4)}
                     ELSE IF x[3] = 0 THEN {LE(x[2] + d, 4) : d \in {-1, 0, 1}}
                     ELSE {LE(x[2], 4), LE(x[2] + 1, 4)}
PositionSet(old, new, pos) ==
  /\ \A j \in 1..3 : new[j] \in MayEncode(pos[j])
  /\ new[13] = WithBit(WithBit(old[13], 0), 5)
  /\ Untouched(old, new, {1, 2, 3, 13})
(* t = <<year, month, day, hour, minute, second, nanosecond>>                    *)
TimeSet(old, new, t) ==
  /\ new[6] = LE((t[1] - 2000) * 100 + t[2], 2)
  /\ new[7] = LE(t[3] * 1000000 + t[4] * 10000 + t[5] * 100 + t[6], 4)
  /\ new[8] = LE(t[7], 4)
  /\ new[13] = WithBit(WithBit(old[13], 1), 10)
  /\ Untouched(old, new, {6, 7, 8, 13})
Step(old, new, op) == IF op[1] = "p" THEN PositionSet(old, new, op[2]) ELSE TimeSet(old, new, op[2])
=============================================================================
