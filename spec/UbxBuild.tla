------------------------------- MODULE UbxBuild -------------------------------
(***************************************************************************)
(* The meaning of the builders (C11, C12, C13, C24) and of requests, rates *)
(* and acknowledgements (C19): the frame made from given field values.     *)
(*                                                                         *)
(* The input of a field is                                                 *)
(*   plain, flags, enum    its raw bytes, little-endian                    *)
(*   scaled                <<k, q>>: the real number (k + q/4) * scale for *)
(*                         q in 0..3, k an eight-byte little-endian two's  *)
(*                         complement; q = 4, 5 plus and minus infinity,   *)
(*                         6 minus zero, 7, 8 the largest finite numbers,  *)
(*                         9, 10 the smallest ones                         *)
(*   words                 the codes of their parts                        *)
(***************************************************************************)
EXTENDS UbxPacket

(* ------------------------------------------------------------- framing     *)
FletcherStep(ck, x) == <<(ck[1] + x) % 256, (ck[2] + ck[1] + x) % 256>>
Fletcher(b) == FoldLeft(FletcherStep, <<0, 0>>, b)
FrameOf(c, i, pl) ==
  LET body == <<c, i, Len(pl) % 256, Len(pl) \div 256>> \o pl IN <<181, 98>> \o body \o Fletcher(body)

(* ------------------------------------------------- the nearest raw step    *)
RECURSIVE IncFrom(_, _)
IncFrom(b, j) == IF j > Len(b) THEN b
                 ELSE IF b[j] = 255 THEN IncFrom([b EXCEPT ![j] = 0], j+1)
                 ELSE [b EXCEPT ![j] = @ + 1]
Inc(b) == IncFrom(b, 1)
Negative(k) == k[8] >= 128
LowestOf(t, w) == [j \in 1..w |-> IF Signed(t) /\ j = w THEN 128 ELSE 0]
HighestOf(t, w) == [j \in 1..w |-> IF Signed(t) /\ j = w THEN 127 ELSE 255]
Fits(t, w, k) == Wide(t, SubSeq(k, 1, w)) = k
Saturated(t, w, k) == IF Fits(t, w, k) THEN SubSeq(k, 1, w)
                      ELSE IF Negative(k) THEN LowestOf(t, w) ELSE HighestOf(t, w)
(* halves go away from zero                                                  *)
Nearest(in) == CASE in[2] \in {0, 1} -> in[1]
                 [] in[2] = 2 -> IF Negative(in[1]) THEN in[1] ELSE Inc(in[1])
                 [] in[2] = 3 -> Inc(in[1])
StepOf(t, w, in) ==
  CASE in[2] \in 0..3 -> Saturated(t, w, Nearest(in))
    [] in[2] \in {4, 7} -> HighestOf(t, w)
    [] in[2] \in {5, 8} -> LowestOf(t, w)
    [] OTHER -> [j \in 1..w |-> 0]

(* ------------------------------------------------------------- words       *)
(* fs: <<value, first bit, number of bits>>, values masked                   *)
BitOf(fs, p) == LET S == {j \in 1..Len(fs) : p >= fs[j][2] /\ p < fs[j][2] + fs[j][3]} IN
                IF S = {} THEN 0 ELSE LET f == fs[CHOOSE j \in S : TRUE] IN (f[1] \div Pow2(p - f[2])) % 2
WordOf(fs) == [j \in 1..4 |-> FoldLeft(LAMBDA a, p : a + Pow2(p) * BitOf(fs, 8 * (j-1) + p), 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)]
WordBytes(u, in) ==
  CASE u = "UartMode" -> WordOf(<< <<2 + in[1], 6, 2>>, <<<<0, 1, 4>>[in[2] + 1], 9, 3>>, <<in[3], 12, 2>> >>)
    [] u = "CfgItfmConfig" -> WordOf(<< <<in[1], 31, 1>>, <<in[2], 0, 4>>, <<in[3], 4, 5>>, <<1487190, 9, 22>> >>)
    [] u = "CfgItfmConfig2" -> WordOf(<< <<798, 0, 12>>, <<in[1], 12, 2>>, <<in[2], 14, 1>> >>)

FieldBytes(f, in) == IF f.k = "scaled" THEN StepOf(f.t, f.w, in)
                     ELSE IF f.u \in Words THEN WordBytes(f.u, in)
                     ELSE in
Cat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
PayloadOf(m, ins) == Cat([k \in 1..Len(m.f) |-> FieldBytes(m.f[k], ins[k])])
Built(m, ins) == FrameOf(m.c, m.i, PayloadOf(m, ins))

(* builders that can be made by default: zeros, and the default of each enum  *)
DefaultCode == [OdoProfile |-> 0, CfgTp5TimePulseMode |-> 0, CfgTmode2TimeXferModes |-> 0,
                I2cPortId |-> 0, SpiPortId |-> 4, CfgNav5DynModel |-> 8, CfgNav5FixMode |-> 3,
                CfgNav5UtcStandard |-> 0]
DefaultBytes(f) == IF f.k = "enum" THEN <<DefaultCode[f.u]>> ELSE [j \in 1..f.w |-> 0]
DefaultFrame(m) == FrameOf(m.c, m.i, Cat([k \in 1..Len(m.f) |-> DefaultBytes(m.f[k])]))

Builders == SelectSeq(Messages, LAMBDA m : m.d \in {"s", "rs"} /\ m.rule = "fixed")
Parsable(m) == \E k \in 1..Len(Order) : Order[k] = m.n

ASSUME \A j \in 1..Len(Builders) :
         LET m == Builders[j] IN
         \A k \in 1..Len(m.f) : m.dflt /\ m.f[k].k = "enum" => m.f[k].u \in DOMAIN DefaultCode
=============================================================================
