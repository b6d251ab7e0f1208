------------------------------ MODULE TraceBuild ------------------------------
(* Judges what builders, requests and acknowledgements of the real code did     *)
(* (C11, C12, C13, C19, C24).                                                   *)
EXTENDS TracePacket, UbxBuild
Concat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Writes(calls) == Concat([j \in 1..Len(calls) |-> IF calls[j][1] = "w" THEN calls[j][2] ELSE <<>>])
(* reserve the whole length first, then write the frame piece by piece          *)
SinkOk(calls, fr) ==
  /\ calls # <<>> /\ calls[1] = <<"r", Len(fr)>>
  /\ \A j \in 2..Len(calls) : calls[j][1] = "w"

C11Verdict(R) ==
  IF "panic" \in DOMAIN R THEN R.b \o " panics"
  ELSE LET m == MsgByName[R.b] fr == Built(m, R["in"]) IN
    IF R.plen # Len(fr) THEN "PACKET_LEN of " \o R.b
    ELSE IF R.into # fr THEN "into_packet_bytes of " \o R.b
    ELSE IF R.arr # fr THEN "array conversion of " \o R.b
    ELSE IF R.vecok # 1 \/ R.vec # <<9, 8, 7>> \o fr THEN "create_packet into Vec of " \o R.b
    ELSE IF R.res # "ok" \/ Writes(R.calls) # fr THEN "create_packet of " \o R.b
    ELSE "ok"
(* what the parser makes of a frame the builder made                            *)
C12Verdict(R) ==
  IF "panic" \in DOMAIN R THEN R.b \o " panics"
  ELSE LET m == MsgByName[R.b] pl == PayloadOf(m, R["in"]) IN
    IF ~Parsable(m) THEN IF R.into # FrameOf(m.c, m.i, pl) THEN "value of " \o R.b ELSE "ok"
    ELSE IF R.back.d # R.b THEN R.b \o " comes back as " \o R.back.d
    ELSE IF R.back.pb # pl THEN "payload of " \o R.b
    ELSE LET bad == BadField(m, 1, pl, R.back.a, FALSE) IN
         IF bad # "" THEN R.b \o "." \o bad
         ELSE IF R.back.re # FrameOf(m.c, m.i, pl) THEN "rebuilding " \o R.b ELSE "ok"
DefaultVerdict(R) == IF R.f = DefaultFrame(MsgByName[R.dflt]) THEN "ok" ELSE "default of " \o R.dflt
(* values with a default of their own: the documented thresholds, all layers    *)
WordDefaults == [CfgItfm |-> FrameOf(6, 57, WordBytes("CfgItfmConfig", <<0, 3, 15>>) \o WordBytes("CfgItfmConfig2", <<0, 0>>)),
                 CfgLayer |-> FrameOf(6, 138, <<0, 7, 0, 0>>)]
WordVerdict(R) == IF R.f = WordDefaults[R.word] THEN "ok" ELSE "default of " \o R.word
Masks == [HOT_START |-> <<0, 0>>, WARM_START |-> <<1, 0>>, COLD_START |-> <<255, 255>>]
RstVerdict(R) == IF R.f = FrameOf(6, 4, Masks[R.rst] \o <<9, 7>>) THEN "ok" ELSE "mask " \o R.rst

FailOk(G, fr) ==
  LET j == G[1] calls == G[4] IN
  /\ SinkOk(calls, fr)
  /\ IF j <= Len(calls)
     THEN /\ Len(calls) = j /\ G[3] = G[2]
          /\ IsPrefixOf(Writes(calls), fr)
     ELSE G[3] = "ok" /\ Writes(calls) = fr
C24Verdict(R) ==
  IF "panic" \in DOMAIN R THEN R.b \o " panics"
  ELSE LET fr == Built(MsgByName[R.b], R["in"]) IN
    IF ~SinkOk(R.calls, fr) \/ R.res # "ok" \/ Writes(R.calls) # fr THEN "create_packet of " \o R.b
    ELSE IF \E j \in 1..Len(R.fails) : ~FailOk(R.fails[j], fr) THEN "failing create_packet of " \o R.b
    ELSE "ok"

RateV == 90
RatesV == <<1, 130, 3, 132, 5, 246>>
MetaVerdict(R) ==
  LET m == MsgByName[R.meta]
      poll == FrameOf(m.c, m.i, <<>>)
  IN IF <<R.c, R.i>> # <<m.c, m.i>> THEN "class and id of " \o R.meta
     ELSE IF R.fixed # (IF m.rule = "fixed" THEN m.len ELSE -1) THEN "FIXED_PAYLOAD_LEN of " \o R.meta
     ELSE IF R.max # m.len THEN "MAX_PAYLOAD_LEN of " \o R.meta
     ELSE IF R.rq # poll THEN "request_for " \o R.meta
     ELSE IF R.one # FrameOf(6, 1, <<m.c, m.i, RateV>>) THEN "single port rate for " \o R.meta
     ELSE IF R.all # FrameOf(6, 1, <<m.c, m.i>> \o RatesV) THEN "all port rates for " \o R.meta
     ELSE "ok"
UnkVerdict(R) == IF R.plen = 8 /\ R.f = FrameOf(R.unk[1], R.unk[2], <<>>) THEN "ok" ELSE "request_for_unknown"
AckVerdict(R) ==
  LET m == MsgByName[R.ack] IN
  IF R.tried = 65536 /\ R.yes = <<<<m.c, m.i>>>> THEN "ok"
  ELSE (IF R.nak = 1 THEN "is_nak_for " ELSE "is_ack_for ") \o R.ack

BuildVerdict(R) ==
  IF "hang" \in DOMAIN R THEN "hang"
  ELSE IF "dflt" \in DOMAIN R THEN IF Mode = "back" THEN DefaultVerdict(R) ELSE "ok"
  ELSE IF "word" \in DOMAIN R THEN IF Mode = "back" THEN WordVerdict(R) ELSE "ok"
  ELSE IF "rst" \in DOMAIN R THEN IF Mode = "back" THEN RstVerdict(R) ELSE "ok"
  ELSE IF "meta" \in DOMAIN R THEN MetaVerdict(R)
  ELSE IF "unk" \in DOMAIN R THEN UnkVerdict(R)
  ELSE IF "ack" \in DOMAIN R THEN AckVerdict(R)
  ELSE CASE Mode = "build" -> C11Verdict(R)
         [] Mode = "back" -> C12Verdict(R)
         [] Mode = "sink" -> C24Verdict(R)
BuildAccepted == judged => BuildVerdict(Trace[recno]) = "ok"
BuildShown == [t |-> recno, l |-> 1, st |-> BuildVerdict(Trace[recno])]
=============================================================================
