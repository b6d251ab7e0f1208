----------------------------- MODULE TracePacket ------------------------------
(* Judges what the real code delivered for frames (C08, C09, C10, C15, C16).   *)
(* A record:                                                                   *)
(*   c, i, pl   class, id and payload of the well-formed frame fed             *)
(*   d          packet type delivered ("Unknown", "" none, "panic")            *)
(*   cm         class_and_msg_id() of the delivered packet                     *)
(*   pb         as_bytes() / the Unknown payload                               *)
(*   a          what each accessor returned, in catalogue order                *)
(*   dbg        Debug returned     js  what Serialize produced   jt  as JSON   *)
EXTENDS UbxPacket, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
Mode == IOEnv.MODE
(* The names of these variables must not be used for a parameter or bound     *)
(* variable in the modules extended: TLC would take it for the variable and   *)
(* stop treating the tables as constants.                                     *)
VARIABLES recno, judged
vars == <<recno, judged>>
Init == recno \in 1..Len(Trace) /\ judged = FALSE
Next == judged = FALSE /\ judged' = TRUE /\ recno' = recno
Spec == Init /\ [][Next]_vars

IsBlock(f) == f.u \in Iters \cup {"&str", "Option<&str>", "Option<u32>"}
(* Is the recorded entry r what the specification says about field f?          *)
(* The distance to the nearest step is in millionths of a step.                *)
Near(f) == IF f.u = "f32" THEN 20000 ELSE 10
ItemOk(r, e) == r = e
EntryOk(f, r, b) ==
  /\ r[2] # "x"
  /\ LET e == Entry(f, b) IN
     CASE f.k = "scaled" -> r[1] = e[1] /\ r[2] = e[2] /\ Len(r) = 5 /\ r[3] = b /\ r[4] <= Near(f)
       [] f.k = "flags"  -> r[1] = e[1] /\ r[2] = e[2] /\ r[3] = b /\ {r[4][j] : j \in 1..Len(r[4])} = e[4]
                            /\ Len(r[4]) = Cardinality(e[4])
       [] f.u \in {"NavSatIter", "RxmRawxInfoIter"} ->
            /\ r[1] = e[1] /\ r[2] = "iter" /\ Len(r[3]) = Len(e[3]) /\ r[4] = 1
            /\ \A j \in 1..Len(e[3]) :
                 /\ Len(r[3][j]) = Len(e[3][j])
                 /\ \A q \in 1..Len(e[3][j]) :
                      IF Len(e[3][j][q]) = 4
                         /\ e[3][j][q][2] \in DOMAIN FlagsByName
                      THEN /\ SubSeq(r[3][j][q], 1, 3) = SubSeq(e[3][j][q], 1, 3)
                           /\ {r[3][j][q][4][z] : z \in 1..Len(r[3][j][q][4])} = e[3][j][q][4]
                      ELSE r[3][j][q] = e[3][j][q]
       [] f.u \in Iters -> r[1] = e[1] /\ r[2] = "iter" /\ r[3] = e[3] /\ r[4] = 1
       [] OTHER -> r = e
RECURSIVE BadField(_, _, _, _, _)
(* name of the first accessor (if sel: of repeated blocks, texts and trailers)  *)
(* with a wrong result                                                         *)
BadField(m, k, pl, acc, sel) ==
  IF k > Len(m.f) THEN IF acc = <<>> THEN "" ELSE "surplus accessor"
  ELSE LET f == m.f[k]
           b == BytesOf(m, k, pl)
           n == IF HasRaw(f) THEN 2 ELSE 1
       IN IF Len(acc) < n THEN f.a
          ELSE IF (IsBlock(f) \/ ~sel) /\ ~EntryOk(f, acc[1], b) THEN f.a
          ELSE IF (IsBlock(f) \/ ~sel) /\ n = 2 /\ acc[2] # RawEntry(f, b) THEN f.a \o "_raw"
          ELSE BadField(m, k+1, pl, SubSeq(acc, n+1, Len(acc)), sel)
Known(R) == R.d \in DOMAIN MsgByName
Fields(R, sel) ==
  LET bad == BadField(MsgByName[R.d], 1, R.pl, R.a, sel) IN
  IF bad = "" THEN "ok" ELSE R.d \o "." \o bad
AnyPanic(R) == \E j \in 1..Len(R.a) : R.a[j][2] = "x"
DispatchVerdict(R) ==
  LET d == Dispatch(R.c, R.i, R.pl) IN
  IF R.d # d THEN "delivered as " \o R.d \o " instead of " \o d
  ELSE IF R.cm # <<R.c, R.i>> THEN "class_and_msg_id of " \o d
  ELSE IF d = "Unknown" /\ R.pb # R.pl THEN "payload of Unknown"
  ELSE "ok"
TotalVerdict(R) ==
  IF R.d = "panic" THEN "panic in next()"
  ELSE IF R.d = "hang" THEN "hang"
  ELSE IF AnyPanic(R) THEN R.d \o "." \o (LET j == CHOOSE j \in 1..Len(R.a) : R.a[j][2] = "x" IN R.a[j][1]) \o " panics"
  ELSE IF R.dbg # 1 THEN "Debug of " \o R.d \o " panics"
  ELSE IF R.js[1] = "x" \/ R.jt = 0 THEN "Serialize of " \o R.d \o " panics"
  ELSE "ok"
JsonVerdict(R) ==
  IF R.d = "Unknown" THEN IF R.js = JsonUnknown(R.c, R.i, R.pl) /\ R.jt = 1 THEN "ok" ELSE "JSON of Unknown"
  ELSE IF ~Known(R) \/ ~Valid(MsgByName[R.d], R.pl) THEN "ok"     \* C08 decides
  ELSE LET e == JsonPacket(MsgByName[R.d], R.c, R.i, R.pl, R.a) IN
       IF R.js[1] # "m" THEN "Serialize of " \o R.d \o " fails"
       ELSE IF Map(LAMBDA x : x[1], R.js[2]) # Map(LAMBDA x : x[1], e[2]) THEN "JSON keys of " \o R.d
       ELSE IF R.js # e
            THEN LET j == CHOOSE j \in 1..Len(e[2]) : R.js[2][j] # e[2][j] IN "JSON value " \o R.d \o "." \o e[2][j][1]
       ELSE IF R.jt # 1 THEN "JSON text of " \o R.d ELSE "ok"
AccessVerdict(R) ==
  IF R.d \in {"Unknown", "", "panic", "hang"} THEN "ok"
  ELSE IF ~LengthOk(MsgByName[R.d], R.pl) \/ ~Valid(MsgByName[R.d], R.pl) THEN "ok"     \* C08 decides
  ELSE IF R.pb # R.pl THEN "as_bytes of " \o R.d
  ELSE Fields(R, FALSE)
BlockVerdict(R) ==
  IF R.d \in {"Unknown", "", "panic", "hang"} THEN "ok"
  ELSE IF MsgByName[R.d].rule # "fixed" /\ Len(R.pl) >= FixedPart(MsgByName[R.d]) /\ ~LengthOk(MsgByName[R.d], R.pl)
       THEN "blocks announced by " \o R.d \o " are not in the payload"
  ELSE IF ~LengthOk(MsgByName[R.d], R.pl) \/ ~Valid(MsgByName[R.d], R.pl) THEN "ok"     \* C08 decides
  ELSE Fields(R, TRUE)
(* C21: enumerations and flag sets, as typed values and as serialized numbers   *)
IsTyped(f) == f.k \in {"enum", "flags"}
TypedFields(m, pl, acc, js) ==
  LET used == [k \in 1..Len(m.f) |-> IF HasRaw(m.f[k]) THEN 2 ELSE 1]
      at == FoldLeft(LAMBDA a, k : Append(a, a[Len(a)] + used[k]), <<1>>, [k \in 1..Len(m.f) |-> k])
      bad == {k \in 1..Len(m.f) : IsTyped(m.f[k]) /\
                \/ Len(acc) < at[k+1] - 1
                \/ ~EntryOk(m.f[k], acc[at[k]], BytesOf(m, k, pl))
                \/ js[k+2] # <<m.f[k].n, JsonValue(m.f[k], BytesOf(m, k, pl), <<>>)>>}
  IN IF bad = {} THEN "ok" ELSE m.n \o "." \o m.f[CHOOSE k \in bad : TRUE].a
TypedVerdict(R) ==
  IF R.d # Dispatch(R.c, R.i, R.pl) THEN "delivered as " \o R.d
  ELSE IF R.d \notin DOMAIN MsgByName THEN "ok"
  ELSE IF R.js[1] # "m" \/ Len(R.js[2]) # Len(MsgByName[R.d].f) + 2 THEN "JSON of " \o R.d
  ELSE IF R.d = "RxmRawx" /\ BlockVerdict(R) # "ok" THEN BlockVerdict(R)
  ELSE TypedFields(MsgByName[R.d], R.pl, R.a, R.js[2])
(* A sweep: base payload pl, byte p (0-based) runs over all 256 values;        *)
(* runs: <<how many, delivered type>>                                          *)
RECURSIVE RunsOk(_, _, _, _)
RunsOk(S, v, k, left) ==
  IF v > 255 THEN "ok"
  ELSE IF left = 0 THEN IF k >= Len(S.runs) THEN "sweep too short" ELSE RunsOk(S, v, k+1, S.runs[k+1][1])
  ELSE LET pl == [S.pl EXCEPT ![S.p + 1] = v] IN
       IF S.runs[k][2] # Dispatch(S.c, S.i, pl)
       THEN "byte " \o ToString(S.p) \o " = " \o ToString(v) \o " delivered as " \o S.runs[k][2]
       ELSE RunsOk(S, v+1, k, left-1)
(* Every length: the payloads are the prefixes of S.pl, the empty one first     *)
RECURSIVE LengthsOk(_, _, _, _)
LengthsOk(S, v, k, left) ==
  IF v > Len(S.pl) THEN "ok"
  ELSE IF left = 0 THEN IF k >= Len(S.runs) THEN "sweep too short" ELSE LengthsOk(S, v, k+1, S.runs[k+1][1])
  ELSE IF S.runs[k][2] # Dispatch(S.c, S.i, SubSeq(S.pl, 1, v))
       THEN "length " \o ToString(v) \o " delivered as " \o S.runs[k][2]
       ELSE LengthsOk(S, v+1, k, left-1)
(* Bulk totality: cases in which something panicked                            *)
Verdict(R) ==
  IF "runs" \in DOMAIN R THEN IF R.p = Len(R.pl) THEN LengthsOk(R, 0, 0, 0) ELSE RunsOk(R, 0, 0, 0)
  ELSE IF "bulk" \in DOMAIN R THEN IF R.panics = <<>> THEN "ok" ELSE "panic: " \o R.panics[1]
  ELSE CASE Mode = "dispatch" -> DispatchVerdict(R)
         [] Mode = "access" -> AccessVerdict(R)
         [] Mode = "blocks" -> BlockVerdict(R)
         [] Mode = "json" -> JsonVerdict(R)
         [] Mode = "total" -> TotalVerdict(R)
         [] Mode = "typed" -> TypedVerdict(R)
Accepted == judged => Verdict(Trace[recno]) = "ok"
Shown == [t |-> recno, l |-> 1, st |-> Verdict(Trace[recno])]
=============================================================================
