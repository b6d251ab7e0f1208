------------------------------ MODULE UbxPacket ------------------------------
(***************************************************************************)
(* The meaning of the catalogue: which packet a payload is dispatched to   *)
(* (C08), what every accessor returns (C09), how repeated blocks, strings  *)
(* and trailers are read (C15) and what is serialized (C16).               *)
(*                                                                         *)
(* Values are compared as little-endian byte sequences, because TLC's      *)
(* integers have 32 bits.                                                  *)
(***************************************************************************)
EXTENDS UbxCatalogue, SequencesExt, TLC

(* TLCEval(v) = v: evaluated once                                           *)
ByName(table) == TLCEval([x \in {table[i].n : i \in 1..Len(table)} |->
                    table[CHOOSE i \in 1..Len(table) : table[i].n = x]])
MsgByName   == ByName(Messages \o Blocks)
EnumByName  == ByName(Enums)
FlagsByName == ByName(FlagSets)

(* ------------------------------------------------------------ bytes, bits *)
Pow2(n) == 2^n
Bit(b, i) == (b[(i \div 8) + 1] \div Pow2(i % 8)) % 2
RECURSIVE Bits(_, _, _)
Bits(b, p, n) == IF n = 0 THEN 0 ELSE Bit(b, p) + 2 * Bits(b, p+1, n-1)
RECURSIVE ToLE(_, _)
ToLE(x, n) == IF n = 0 THEN <<>> ELSE <<x % 256>> \o ToLE(x \div 256, n-1)
Slice(b, o, n) == SubSeq(b, o+1, o+n)
From(b, o) == SubSeq(b, o+1, Len(b))
Chunks(b, n) == [j \in 1..(Len(b) \div n) |-> SubSeq(b, (j-1) * n + 1, j * n)]
Signed(t) == t \in {"i8", "i16", "i32", "i64"}
(* the value of an integer field, sign-extended to eight bytes              *)
Wide(t, b) == b \o [i \in 1..(8 - Len(b)) |-> IF Signed(t) /\ b[Len(b)] >= 128 THEN 255 ELSE 0]

(* ------------------------------------------------------- sub-bit-fields    *)
(* <<accessor, first bit, number of bits, printed value by code>>           *)
Bool == <<"false", "true">>
Flag(n, p) == <<n, p, 1, Bool>>
SubFields ==
  [FixStatusInfo |-> <<
     Flag("has_pr_prr_correction", 0),
     <<"map_matching", 6, 2, <<"None", "Valid", "Used", "Dr">>>> >>,
   NavSatSvFlags |-> <<
     <<"quality_ind", 0, 3, <<"NoSignal", "Searching", "SignalAcquired", "SignalDetected",
                              "CodeLock", "CarrierLock", "CarrierLock", "CarrierLock">>>>,
     Flag("sv_used", 3),
     <<"health", 4, 2, <<"Unknown(0)", "Healthy", "Unhealthy", "Unknown(3)">>>>,
     Flag("differential_correction_available", 6),
     Flag("smoothed", 7),
     <<"orbit_source", 8, 3, <<"NoInfoAvailable", "Ephemeris", "Almanac", "AssistNowOffline",
                               "AssistNowAutonomous", "Other(5)", "Other(6)", "Other(7)">>>>,
     Flag("ephemeris_available", 11), Flag("almanac_available", 12),
     Flag("an_offline_available", 13), Flag("an_auto_available", 14),
     Flag("sbas_corr", 16), Flag("rtcm_corr", 17), Flag("slas_corr", 18), Flag("spartn_corr", 19),
     Flag("pr_corr", 20), Flag("cr_corr", 21), Flag("do_corr", 22) >>,
   TimTpFlags |-> <<
     <<"time_base", 0, 1, <<"Gnss", "Utc">>>>,
     Flag("utc_available", 1),
     <<"raim_active", 2, 2, <<"None", "Some(false)", "Some(true)", "None">>>>,
     <<"q_err_valid", 4, 1, <<"true", "false">>>> >>,
   TimTpRefInfo |-> <<
     <<"time_ref_gnss", 0, 4, <<"Some(Gps)", "Some(Glo)", "Some(Bds)", "Some(Gal)", "Some(NavIc)",
        "None", "None", "None", "None", "None", "None", "None", "None", "None", "None", "None">>>>,
     <<"utc_standard", 4, 4, <<"None", "Some(Crl)", "Some(Nist)", "Some(Usno)", "Some(Bipm)",
        "Some(Eu)", "Some(Su)", "Some(Ntsc)", "Some(Npli)",
        "None", "None", "None", "None", "None", "None", "None">>>> >>,
   TimTm2Flags |-> <<
     <<"mode", 0, 1, <<"Single", "Running">>>>,
     <<"run", 1, 1, <<"Armed", "Stopped">>>>,
     Flag("new_falling_edge", 2),
     <<"time_base", 3, 2, <<"Receiver", "Gnss", "Utc", "-">>>>,
     Flag("utc_available", 5), Flag("time_valid", 6), Flag("new_rising_edge", 7) >>]
SubValues(u, b) == [i \in 1..Len(SubFields[u]) |->
                      LET s == SubFields[u][i] IN <<s[1], s[4][Bits(b, s[2], s[3]) + 1]>>]

(* configuration words which are read as structures                         *)
IntV(x) == <<"i", ToLE(x, 8)>>
BoolV(x) == <<"t", x>>
StructV(fs) == <<"m", fs>>
DataBitsOf(b) == <<"-", "-", "Seven", "Eight">>[Bits(b, 6, 2) + 1]
ParityOf(b)   == <<"Even", "Odd", "-", "-", "None", "None", "-", "-">>[Bits(b, 9, 3) + 1]
StopBitsOf(b) == <<"One", "OneHalf", "Two", "Half">>[Bits(b, 12, 2) + 1]
UartModeV(b) == StructV(<<<<"data_bits", <<"s", DataBitsOf(b)>>>>,
                          <<"parity", <<"s", ParityOf(b)>>>>,
                          <<"stop_bits", <<"s", StopBitsOf(b)>>>>>>)
AntennaCode(b) == LET c == Bits(b, 12, 2) IN IF c = 3 THEN 0 ELSE c
ItfmV(b) == StructV(<<<<"enable", BoolV(Bit(b, 31))>>, <<"bb_threshold", IntV(Bits(b, 0, 4))>>,
                      <<"cw_threshold", IntV(Bits(b, 4, 5))>>,
                      <<"algorithm_bits", IntV(Bits(b, 9, 22))>>>>)
Itfm2V(b) == StructV(<<<<"general", IntV(Bits(b, 0, 12))>>, <<"antenna", IntV(AntennaCode(b))>>,
                       <<"scan_aux_bands", BoolV(Bit(b, 14))>>>>)
WordV(u, b) == CASE u = "UartMode" -> UartModeV(b)
                 [] u = "CfgItfmConfig" -> ItfmV(b)
                 [] u = "CfgItfmConfig2" -> Itfm2V(b)
Words == {"UartMode", "CfgItfmConfig", "CfgItfmConfig2"}

(* ------------------------------------------------------------ strings      *)
IndexOfZero(b) == IF \E i \in 1..Len(b) : b[i] = 0
                  THEN CHOOSE i \in 1..Len(b) : b[i] = 0 /\ \A j \in 1..(i-1) : b[j] # 0
                  ELSE 0
CStr(b) == SubSeq(b, 1, IndexOfZero(b) - 1)
(* UTF-8, by the table of well-formed byte sequences of the Unicode standard: *)
(* the state is <<continuation bytes still due, range of the next byte>>.      *)
Utf8Step(q, x) ==
  IF q[1] = -1 THEN q
  ELSE IF q[1] > 0 THEN IF x >= q[2] /\ x <= q[3] THEN <<q[1] - 1, 128, 191>> ELSE <<-1, 0, 0>>
  ELSE IF x <= 127 THEN q
  ELSE IF x >= 194 /\ x <= 223 THEN <<1, 128, 191>>
  ELSE IF x = 224 THEN <<2, 160, 191>>
  ELSE IF x = 237 THEN <<2, 128, 159>>
  ELSE IF x >= 225 /\ x <= 239 THEN <<2, 128, 191>>
  ELSE IF x = 240 THEN <<3, 144, 191>>
  ELSE IF x >= 241 /\ x <= 243 THEN <<3, 128, 191>>
  ELSE IF x = 244 THEN <<3, 128, 143>>
  ELSE <<-1, 0, 0>>
Utf8(b) == FoldLeft(Utf8Step, <<0, 0, 0>>, b)[1] = 0
CStrValid(b) == IndexOfZero(b) # 0 /\ Utf8(CStr(b))

(* ------------------------------------------------- length and validation   *)
RECURSIVE SumWidths(_, _)
SumWidths(fs, n) == IF n = 0 THEN 0 ELSE fs[n].w + SumWidths(fs, n-1)
OffsetTable == TLCEval([n \in DOMAIN MsgByName |->
                  [k \in 1..(Len(MsgByName[n].f) + 1) |-> SumWidths(MsgByName[n].f, k-1)]])
FixedPart(m) == OffsetTable[m.n][Len(m.f) + 1]
EsfWords(pl) == LET f == Slice(pl, 4, 2) IN Bits(f, 11, 5)
EsfCalib(pl) == Bit(Slice(pl, 4, 2), 3)
LengthOk(m, pl) ==
  IF m.rule = "fixed" THEN Len(pl) = m.len
  ELSE /\ Len(pl) >= FixedPart(m)
       /\ m.n = "EsfMeas" => Len(pl) >= 8 + 4 * EsfWords(pl) + 4 * EsfCalib(pl)

(* Where a field's bytes are.  Only unsized fields have data-dependent      *)
(* places: the last one takes the rest, those of ESF-MEAS are sized by its  *)
(* flags.                                                                   *)
OffsetOf(m, k, pl) == IF m.n = "EsfMeas" /\ m.f[k].n = "calib_tag" THEN 8 + 4 * EsfWords(pl)
                      ELSE OffsetTable[m.n][k]
BytesOf(m, k, pl) ==
  LET o == OffsetOf(m, k, pl) IN
  IF m.f[k].w > 0 THEN Slice(pl, o, m.f[k].w)
  ELSE IF m.n = "EsfMeas" /\ m.f[k].n = "data" THEN Slice(pl, o, 4 * EsfWords(pl))
  ELSE IF m.n = "EsfMeas" THEN Slice(pl, o, 4 * EsfCalib(pl))
  ELSE From(pl, o)

Codes(e) == {e.v[i][1] : i \in 1..Len(e.v)}
FieldOk(f, b) ==
  CASE f.k = "enum" -> EnumByName[f.u].rest = "reserved" \/ b[1] \in Codes(EnumByName[f.u])
    [] f.u = "UartMode" -> DataBitsOf(b) # "-" /\ ParityOf(b) # "-"
    [] f.u = "TimTm2Flags" -> Bits(b, 3, 2) # 3
    [] f.u = "NavSatIter" -> Len(b) % 12 = 0
    [] f.u = "RxmRawxInfoIter" -> Len(b) % 32 = 0
    [] f.u = "EsfMeasDataIter" -> TRUE
    [] f.u = "EsfRawDataIter" -> Len(b) % 8 = 0
    [] f.u = "DwrdIter" -> Len(b) % 4 = 0
    [] f.u = "&str" -> CStrValid(b)
    [] f.u = "MonVerExtensionIter" -> Len(b) % 30 = 0 /\ \A c \in Range(Chunks(b, 30)) : CStrValid(c)
    [] OTHER -> TRUE
Valid(m, pl) ==
  /\ LengthOk(m, pl)
  /\ m.n = "EsfMeas" => (Len(pl) - 8) % 4 = 0
  /\ \A k \in 1..Len(m.f) : FieldOk(m.f[k], BytesOf(m, k, pl))

ClassId(n) == <<MsgByName[n].c, MsgByName[n].i>>
CandidateTable == [ci \in {ClassId(Order[k]) : k \in 1..Len(Order)} |->
                     {k \in 1..Len(Order) : ClassId(Order[k]) = ci}]
Dispatch(c, i, pl) ==
  IF <<c, i>> \notin DOMAIN CandidateTable THEN "Unknown"
  ELSE LET S == CandidateTable[<<c, i>>]
           ok == {k \in S : Valid(MsgByName[Order[k]], pl)}
       IN IF ok = {} THEN "Unknown" ELSE Order[CHOOSE k \in ok : \A j \in ok : k <= j]

(* --------------------------------------------------------- accessors       *)
(* One entry per accessor: <<name, type, value...>>.  For a scaled number   *)
(* the value is the raw integer: the conformance driver divides the         *)
(* returned float by the declared scale and reports the nearest integer and *)
(* the distance to it.                                                      *)
EnumVariant(u, x) ==
  LET e == EnumByName[u] IN
  IF x \in Codes(e) THEN (CHOOSE p \in Range(e.v) : p[1] = x)[2] ELSE "Reserved" \o ToString(x)
FlagName(s, i) == IF \E p \in Range(s.c) : p[1] = i THEN (CHOOSE p \in Range(s.c) : p[1] = i)[2]
                  ELSE "RESERVED" \o ToString(i)
FlagNames(u, b) ==
  LET s == FlagsByName[u]
      bits == SelectSeq([i \in 1..(8 * s.w) |-> i-1], LAMBDA i : Bit(b, i) = 1)
  IN {FlagName(s, bits[j]) : j \in 1..Len(bits)}

RECURSIVE Entries(_, _)
EsfDataItem(b) == <<<<"data_type", "u8", <<b[4] % 64>>>>, <<"data_field", "u32", <<b[1], b[2], b[3], 0>>>>>>
EsfRawItem(b) == <<<<"data_type", "u8", <<b[4]>>>>, <<"data_field", "u32", <<b[1], b[2], b[3], 0>>>>,
                   <<"sensor_time_tag", "u32", SubSeq(b, 5, 8)>>>>
Map(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
Items(u, b) ==
  CASE u = "NavSatIter" -> Map(LAMBDA c : Entries(MsgByName["NavSatSvInfo"], c), Chunks(b, 12))
    [] u = "RxmRawxInfoIter" -> Map(LAMBDA c : Entries(MsgByName["RxmRawxInfo"], c), Chunks(b, 32))
    [] u = "EsfMeasDataIter" -> Map(EsfDataItem, Chunks(b, 4))
    [] u = "EsfRawDataIter" -> Map(EsfRawItem, Chunks(b, 8))
    [] u = "DwrdIter" -> Map(LAMBDA c : <<<<"word", "u32", c>>>>, Chunks(b, 4))
    [] u = "MonVerExtensionIter" -> Map(LAMBDA c : <<<<"text", "str", CStr(c)>>>>, Chunks(b, 30))
Iters == {"NavSatIter", "RxmRawxInfoIter", "EsfMeasDataIter", "EsfRawDataIter", "DwrdIter", "MonVerExtensionIter"}

Entry(f, b) ==
  CASE f.k = "plain"  -> <<f.a, f.t, b>>
    [] f.k = "scaled" -> <<f.a, f.u, b>>
    [] f.k = "flags"  -> <<f.a, f.u, b, FlagNames(f.u, b)>>
    [] f.k = "enum"   -> <<f.a, f.u, b, EnumVariant(f.u, b[1])>>
    [] f.u \in DOMAIN SubFields -> <<f.a, f.u, SubValues(f.u, b)>>
    [] f.u \in Words -> <<f.a, f.u, WordV(f.u, b)>>
    [] f.u \in Iters -> <<f.a, "iter", Items(f.u, b)>>
    [] f.u = "&str" -> <<f.a, "str", CStr(b)>>
    [] f.u = "Option<&str>" -> <<f.a, "opt", IF Utf8(b) THEN <<b>> ELSE <<>>>>
    [] f.u = "Option<u32>" -> <<f.a, "opt", IF Len(b) = 4 THEN <<b>> ELSE <<>>>>
HasRaw(f) == f.k # "plain" /\ f.w > 0      \* unsized fields have no raw accessor
RawEntry(f, b) == <<f.a \o "_raw", f.t, b>>
RECURSIVE EntriesFrom(_, _, _)
EntriesFrom(m, k, pl) ==
  IF k > Len(m.f) THEN <<>>
  ELSE LET b == BytesOf(m, k, pl) IN
       (IF HasRaw(m.f[k]) THEN <<Entry(m.f[k], b), RawEntry(m.f[k], b)>>
        ELSE <<Entry(m.f[k], b)>>) \o EntriesFrom(m, k+1, pl)
Entries(m, pl) == EntriesFrom(m, 1, pl)

(* --------------------------------------------------------- serialization   *)
(* Values: <<"i", eight bytes>> integers, <<"f", bits>> floats, <<"s", ..>> *)
(* variant names, <<"b", bytes>> texts, <<"n">> none, <<"t", 0/1>> booleans,*)
(* <<"q", items>> sequences, <<"m", <<key, value>>s>> maps and structures.  *)
(* A scaled field is serialized as the value its accessor returned (bits).   *)
RECURSIVE JsonFields(_, _, _, _)
JsonFloat(t, b) == IF t = "f32" THEN <<"f4", b>> ELSE <<"f", b>>
JsonPlain(t, b) == IF t \in {"f32", "f64"} THEN JsonFloat(t, b)
                   ELSE IF t = "bytes" THEN <<"q", Map(LAMBDA x : IntV(x), b)>>
                   ELSE <<"i", Wide(t, b)>>
JsonItem(u, c) ==
  CASE u = "NavSatIter" -> StructV(JsonFields(MsgByName["NavSatSvInfo"], 1, c, <<>>))
    [] u = "RxmRawxInfoIter" -> StructV(JsonFields(MsgByName["RxmRawxInfo"], 1, c, <<>>))
    [] u = "EsfMeasDataIter" -> StructV(Map(LAMBDA e : <<e[1], <<"i", Wide("u32", e[3])>>>>, EsfDataItem(c)))
    [] u = "EsfRawDataIter" -> StructV(Map(LAMBDA e : <<e[1], <<"i", Wide("u32", e[3])>>>>, EsfRawItem(c)))
    [] u = "DwrdIter" -> <<"i", Wide("u32", c)>>
    [] u = "MonVerExtensionIter" -> <<"b", CStr(c)>>
BlockLen(u) == CASE u = "NavSatIter" -> 12 [] u = "RxmRawxInfoIter" -> 32 [] u = "EsfMeasDataIter" -> 4
                 [] u = "EsfRawDataIter" -> 8 [] u = "DwrdIter" -> 4 [] u = "MonVerExtensionIter" -> 30
JsonValue(f, b, bits) ==
  CASE f.k = "plain"  -> JsonPlain(f.t, b)
    [] f.k = "scaled" -> JsonFloat(f.u, bits)
    [] f.k \in {"flags", "enum"} -> <<"i", Wide(f.t, b)>>
    [] f.u \in DOMAIN SubFields -> <<"i", Wide(f.t, b)>>
    [] f.u \in Words -> WordV(f.u, b)
    [] f.u \in Iters -> <<"q", Map(LAMBDA c : JsonItem(f.u, c), Chunks(b, BlockLen(f.u)))>>
    [] f.u = "&str" -> <<"b", CStr(b)>>
    [] f.u = "Option<&str>" -> IF Utf8(b) THEN <<"b", b>> ELSE <<"n">>
    [] f.u = "Option<u32>" -> IF Len(b) = 4 THEN <<"i", Wide("u32", b)>> ELSE <<"n">>
(* acc: the recorded accessor entries of the fields not yet serialized        *)
JsonFields(m, k, pl, acc) ==
  IF k > Len(m.f) THEN <<>>
  ELSE LET f == m.f[k]
           bits == IF f.k = "scaled" THEN acc[1][5] ELSE <<>>
           used == IF acc = <<>> THEN 0 ELSE IF HasRaw(f) THEN 2 ELSE 1
       IN <<<<f.n, JsonValue(f, BytesOf(m, k, pl), bits)>>>>
          \o JsonFields(m, k+1, pl, SubSeq(acc, used+1, Len(acc)))
JsonPacket(m, c, i, pl, acc) ==
  StructV(<<<<"class", IntV(c)>>, <<"msg_id", IntV(i)>>>> \o JsonFields(m, 1, pl, acc))
JsonUnknown(c, i, pl) ==
  StructV(<<<<"payload", <<"q", Map(LAMBDA x : IntV(x), pl)>>>>, <<"class", IntV(c)>>, <<"msg_id", IntV(i)>>>>)

(* --------------------------------------------- consistency of the catalogue *)
ASSUME CatalogueConsistent ==
  /\ \A i, j \in 1..Len(Messages) : Messages[i].n = Messages[j].n => i = j
  /\ \A i \in 1..Len(Messages) :
       LET m == Messages[i] IN
       /\ m.rule = "fixed" => FixedPart(m) = m.len /\ \A k \in 1..Len(m.f) : m.f[k].w > 0
       /\ m.rule = "max" => FixedPart(m) <= m.len /\ m.len <= 8176
       /\ \A k, l \in 1..Len(m.f) : m.f[k].n = m.f[l].n => k = l
       /\ \A k \in 1..Len(m.f) : m.f[k].k = "flags" => FlagsByName[m.f[k].u].w = m.f[k].w
  /\ \A i \in 1..Len(Enums) : \A k, l \in 1..Len(Enums[i].v) :
       (Enums[i].v[k][1] = Enums[i].v[l][1] \/ Enums[i].v[k][2] = Enums[i].v[l][2]) => k = l
  /\ \A i \in 1..Len(FlagSets) : \A k, l \in 1..Len(FlagSets[i].c) :
       (FlagSets[i].c[k][1] = FlagSets[i].c[l][1] \/ FlagSets[i].c[k][2] = FlagSets[i].c[l][2]) => k = l
  /\ \A k, l \in 1..Len(Order) : Order[k] = Order[l] => k = l
  /\ \A k \in 1..Len(Order) : MsgByName[Order[k]].d \in {"r", "rs"}
  (* CFG-INF and CFG-NAVX5 have readers, but the parser does not offer them   *)
  /\ {Messages[i].n : i \in {i \in 1..Len(Messages) : Messages[i].d \in {"r", "rs"}}}
       = {Order[k] : k \in 1..Len(Order)} \cup {"CfgInf", "CfgNavX5"}
=============================================================================
