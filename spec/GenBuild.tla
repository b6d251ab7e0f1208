------------------------------- MODULE GenBuild -------------------------------
(* Enumerates inputs for every fixed-size builder: each field through all its   *)
(* interesting values with the other fields distinct; scaled fields at, between *)
(* and halfway between steps, at and beyond the ends of the raw type's range.   *)
EXTENDS UbxBuild, Json, IOUtils, FiniteSets
VARIABLE written
Rep(v, n) == [j \in 1..n |-> v]
Pattern(n, a) == [j \in 1..n |-> (a + j * 37) % 256]
OneBit(i, w) == [j \in 1..w |-> IF j = i \div 8 + 1 THEN Pow2(i % 8) ELSE 0]
Extremes(w) == {Rep(0, w), Rep(255, w), Rep(0, w-1) \o <<128>>, Rep(255, w-1) \o <<127>>,
                <<1>> \o Rep(0, w-1), <<255>> \o Rep(0, w-1), Rep(0, w-1) \o <<1>>, Pattern(w, 90)}
RECURSIVE DecFrom(_, _)
DecFrom(b, j) == IF j > Len(b) THEN b ELSE IF b[j] = 0 THEN DecFrom([b EXCEPT ![j] = 255], j+1) ELSE [b EXCEPT ![j] = @ - 1]
Around(k) == {DecFrom(DecFrom(k, 1), 1), DecFrom(k, 1), k, Inc(k), Inc(Inc(k))}
Steps(f) == Around(Rep(0, 8)) \cup Around(Wide(f.t, LowestOf(f.t, f.w))) \cup Around(Wide(f.t, HighestOf(f.t, f.w)))
            \cup {Wide("i64", <<57, 48>> \o Rep(0, 6)), Wide("i16", <<57, 200>>),
                  Rep(0, 4) \o <<1, 0, 0, 0>>, Rep(0, 4) \o <<255, 255, 255, 255>>,
                  Wide(f.t, Pattern(f.w, 33))}
ScaledInputs(f) ==
  {<<k, q>> : k \in Steps(f), q \in {0, 1, 3} \cup (IF f.s = "1.0" THEN {2} ELSE {})}
  \cup {<<Rep(0, 8), q>> : q \in 4..10}
Inputs(f) ==
  CASE f.k = "scaled" -> ScaledInputs(f)
    [] f.k = "enum" -> {<<c>> : c \in IF EnumByName[f.u].rest = "reserved" THEN 0..255 ELSE Codes(EnumByName[f.u])}
    [] f.k = "flags" -> {OneBit(i, f.w) : i \in 0..(8 * f.w - 1)} \cup Extremes(f.w)
    [] f.u = "UartMode" -> {<<d, p, s>> : d \in 0..1, p \in 0..2, s \in 0..3}
    [] f.u = "CfgItfmConfig" -> {<<e, b, c>> : e \in {0, 1}, b \in {0, 1, 3, 15, 16, 255}, c \in {0, 1, 15, 31, 32, 1023}}
    [] f.u = "CfgItfmConfig2" -> {<<a, s>> : a \in 0..2, s \in {0, 1}}
    [] f.u = "ResetMode" -> {<<v>> : v \in {0, 1, 2, 4, 8, 9}}
    [] f.u = "AlignmentToReferenceTime" -> {<<v, 0>> : v \in 0..4}
    [] OTHER -> Extremes(f.w)
Base(m) == [k \in 1..Len(m.f) |->
              IF m.f[k].k = "plain" THEN Pattern(m.f[k].w, 11 * k)
              ELSE IF m.f[k].k = "scaled" THEN <<Wide(m.f[k].t, Pattern(m.f[k].w, 7 * k)), 0>>
              ELSE CHOOSE x \in Inputs(m.f[k]) : TRUE]
Scenarios(m) == {<<m.n, Base(m)>>}
                \cup UNION {{<<m.n, [Base(m) EXCEPT ![k] = x]>> : x \in Inputs(m.f[k])} : k \in 1..Len(m.f)}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(UNION {Scenarios(Builders[j]) : j \in 1..Len(Builders)}))
Spec == written = TRUE /\ [][FALSE]_written
=============================================================================
