---------------------------- MODULE TraceParser -----------------------------
(***************************************************************************)
(* Judges recorded runs of the real parser.  Every record is one run (a     *)
(* behaviour of its own: one initial state per record); its events are       *)
(* matched one by one with the actions of the specification:                 *)
(*   ["c",n]  consume() of the next n bytes of the stream                    *)
(*   ["p",class,id,payload]  next() = a packet                               *)
(*   ["k",expect,got]        next() = Err(InvalidChecksum)                   *)
(*   ["m",required]          next() = Err(OutOfMemory)                       *)
(*   ["n"]                   next() = None                                   *)
(*   ["d",len,empty]  the iterator is dropped; buffer_len, is_buffer_empty   *)
(*   ["x",..] a panic, ["h",..] a hang, ["o",..] another error: never allowed *)
(* Records with "seg" hold the distinct fully drained segments               *)
(*   [a, b, results, len, n]                                                *)
(* over all chunkings of one stream: bytes [0,a) were fed and drained before, *)
(* with n results; [a,b) was fed, with these results until None; len kept.    *)
(* Mode says which property judges:                                          *)
(*  "exact"   the whole specification, action by action                       *)
(*  "inv"     C01: the same as the code's own results for the whole stream    *)
(*  "sound"   C02: packets are well-formed occurrences, in order              *)
(*  "results" C03: every result is the one of the scan                        *)
(*  "errors"  C04: as "results" where an error is due or seen                 *)
(*  "bounded" C05: a result the bounded specification allows, nothing lost    *)
(*  "total"   C06: no panic, no hang, progress, None is stable                *)
(*  "kept"    C07: what is kept between calls                                 *)
(***************************************************************************)
EXTENDS UbxBounded, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
Mode == IOEnv.MODE

VARIABLES t,      \* record
          l,      \* events matched
          h, e,   \* pending bytes [h, e)
          it,     \* "idle", "live", "done"
          cnt,    \* results of this iterator
          st      \* "ok" or why the trace is rejected
vars == <<t, l, h, e, it, cnt, st>>
R == Trace[t]
IsSeg(r) == "seg" \in DOMAIN r
Size(r)  == IF IsSeg(r) THEN Len(r.seg) ELSE Len(r.ev)

TInit == /\ t \in 1..Len(Trace)
         /\ l = 0 /\ h = 0 /\ e = 0 /\ it = "idle" /\ cnt = 0 /\ st = "ok"

Stay(v) == UNCHANGED v
Set(hh, ee, ii, cc, ss) == h' = hh /\ e' = ee /\ it' = ii /\ cnt' = cc /\ st' = ss
Reject(why) == Set(h, e, it, cnt, why)

(* an outcome of the specification, as the driver writes it                  *)
AsEvent(s, r) ==
  CASE r.k = "none"  -> <<"n">>
    [] r.k = "frame" -> <<"p", s[r.at+3], s[r.at+4], SubSeq(s, r.at+7, r.at+6+r.n)>>
    [] r.k = "bad"   -> <<"k", r.expect, r.got>>
    [] r.k = "oom"   -> <<"m", r.required>>
Matches(s, r, ev) == ev[1] = AsEvent(s, r)[1] /\ ev = AsEvent(s, r)

Allowed(s) == IF R.cap < 0 THEN {Step(s, h, e)} ELSE BSteps(s, h, e, R.cap)

----------------------------------------------------------------------------
(* The specification, action by action.                                      *)
IsErr(x) == x \in {"k", "m", "bad", "oom"}
FollowResult(ev) ==
  \E all \in {Allowed(R.s)} :
  \E ok \in {{r \in all : Matches(R.s, r, ev)}} :
    IF ok # {} THEN \E r \in ok : Set(r.h, e, IF r.k = "none" THEN "done" ELSE "live", cnt + 1, "ok")
    ELSE IF Mode = "errors" /\ ~ IsErr(ev[1]) /\ \E r \in all : ~ IsErr(r.k)
         THEN Set(h, e, "off", cnt, "ok")        \* not for C04 to judge
    ELSE Reject("result not allowed")
FollowAgain(ev) ==          \* polled after None
  IF ev = <<"n">> THEN Set(h, e, "done", cnt, "ok") ELSE Reject("result after None")
KeptOk(ev) ==
  CASE Mode = "exact" -> /\ IF it = "done" THEN ev[2] = e - h ELSE ev[2] <= e - h
                         /\ ev[3] = IF ev[2] = 0 THEN 1 ELSE 0
    [] Mode = "bounded" -> it = "done" => ev[2] >= e - h
    [] OTHER -> TRUE
Follow(ev) ==
  CASE it = "off" -> Stay(<<h, e, it, cnt, st>>)
    [] ev[1] = "c" -> Set(h, e + ev[2], "live", 0, "ok")
    [] ev[1] \in {"p", "k", "m", "n"} -> IF it = "done" THEN FollowAgain(ev) ELSE FollowResult(ev)
    [] ev[1] = "d" -> IF KeptOk(ev) THEN Set(h, e, "idle", 0, "ok") ELSE Reject("bytes kept")
    [] ev[1] \in {"x", "h"} /\ Mode = "errors" -> Set(h, e, "off", cnt, "ok")
    [] OTHER -> Reject("panic, hang or other error")

(* C01 alone: the results so far are a prefix of those of the whole stream;   *)
(* once all is fed and drained they are all of them and as much is kept.      *)
Crash(evs) == \E i \in 1..Len(evs) : evs[i][1] \in {"x", "h"}
Invariance(ev) ==     \* cnt counts all results of the run here
  CASE ev[1] = "c" -> Set(h, e + ev[2], "live", cnt, "ok")
    [] ev[1] \in {"p", "k", "m", "o"} ->
         IF cnt + 1 > Len(R.w) \/ R.w[cnt+1] # ev THEN Reject("not the result of the whole stream")
         ELSE Set(h, e, it, cnt + 1, "ok")
    [] ev[1] = "n" -> Set(h, e, "done", cnt, "ok")
    [] ev[1] = "d" -> IF it = "done" /\ e = Len(R.s) /\ (cnt # Len(R.w) \/ ev[2] # R.wl)
                      THEN Reject("not all results of the whole stream")
                      ELSE Set(h, e, "idle", cnt, "ok")
    [] OTHER -> IF "w" \in DOMAIN R /\ Crash(R.w) THEN Set(h, e, "off", cnt, "ok") ELSE Reject("panic or hang")

(* C02 alone: each packet is a well-formed occurrence at or after the end of  *)
(* the previous one (the earliest such occurrence is taken), within the bytes *)
(* fed so far.                                                                *)
Occurs(s, p, ev) == /\ WellFormedAt(s, p, e) /\ s[p+3] = ev[2] /\ s[p+4] = ev[3]
                    /\ SubSeq(s, p+7, p+6+PayLen(s, p)) = ev[4]
Sound(ev) ==
  CASE ev[1] = "c" -> Set(h, e + ev[2], it, cnt, "ok")
    [] ev[1] = "p" ->
         \E at \in {{p \in h..(e-8) : R.s[p+1] = Sync1 /\ Occurs(R.s, p, ev)}} :
         IF at = {} THEN Reject("packet is not in the stream")
         ELSE \E p \in at : /\ \A q \in at : p <= q
                            /\ Set(p + FrameLen(PayLen(R.s, p)), e, it, cnt + 1, "ok")
    [] OTHER -> Set(h, e, it, cnt, "ok")

(* C06 alone: no panic, no hang, at most pending/2 results, None is stable.   *)
(* h counts down the pending bytes here: e - h = pending at consume.          *)
Total(ev) ==
  CASE ev[1] = "c" -> Set(h, e + ev[2], "live", 0, "ok")
    [] ev[1] \in {"p", "k", "m", "o"} ->
         IF it = "done" THEN Reject("result after None")
         ELSE IF 2 * (cnt + 1) > e - h THEN Reject("more results than pending / 2")
         ELSE Set(h, e, "live", cnt + 1, "ok")
    [] ev[1] = "n" -> Set(h, e, "done", cnt, "ok")
    [] ev[1] = "d" -> IF ev[2] <= e - h THEN Set(e - ev[2], e, "idle", 0, "ok")
                      ELSE Reject("more bytes kept than were pending")
    [] OTHER -> Reject("panic or hang")

(* C07 alone: after None the bytes kept are the unfinished candidate at the   *)
(* end of the stream.  Only their number is visible; they are the last ones.  *)
(* h is where what was kept last begins: the scan can resume there.           *)
Kept(ev) ==
  CASE ev[1] = "c" -> Set(h, e + ev[2], "live", 0, "ok")
    [] ev[1] = "n" -> Set(h, e, "done", cnt, "ok")
    [] ev[1] = "d" ->
         IF it # "done" THEN Set(h, e, "idle", 0, "ok")
         ELSE IF ev[2] <= e /\ IsResidue(R.s, e - ev[2], e)
                 /\ ev[2] <= FrameLen(MaxPayload) - 1
                 /\ (R.cap >= 0 => ev[2] <= R.cap)
                 /\ ev[3] = (IF ev[2] = 0 THEN 1 ELSE 0)
                 /\ (R.cap < 0 => ev[2] = e - Scan(R.s, h, e).h)
              THEN Set(e - ev[2], e, "idle", 0, "ok")
              ELSE Reject("what is kept is not the unfinished candidate")
    [] ev[1] = "x" -> Reject("panic")
    [] OTHER -> Set(h, e, it, cnt, "ok")

----------------------------------------------------------------------------
(* Segments (growable buffer, every iterator exhausted).                      *)
SegFollow(sg) ==
  \E from \in {Scan(R.s, 0, sg[1]).h} :
  \E z \in {ScanAll(R.s, from, sg[2], <<>>)} :
    IF Len(sg[3]) # Len(z.out) THEN Reject("number of results")
    ELSE IF \E i \in 1..Len(z.out) : ~ Matches(R.s, z.out[i], sg[3][i]) THEN Reject("results")
    ELSE IF Mode = "exact" /\ sg[4] # sg[2] - z.h THEN Reject("bytes kept")
    ELSE Stay(<<h, e, it, cnt, st>>)
RECURSIVE SoundFrom(_, _, _, _)
SoundFrom(s, p, b, evs) ==
  IF evs = <<>> THEN TRUE
  ELSE IF evs[1][1] # "p" THEN SoundFrom(s, p, b, Tail(evs))
  ELSE LET ev == evs[1]
           at == {q \in p..(b-8) : s[q+1] = Sync1 /\ WellFormedAt(s, q, b) /\ s[q+3] = ev[2]
                                   /\ s[q+4] = ev[3] /\ SubSeq(s, q+7, q+6+PayLen(s, q)) = ev[4]} IN
       \E ats \in {at} : \E q \in ats : /\ \A r \in ats : q <= r
                                       /\ SoundFrom(s, q + FrameLen(PayLen(s, q)), b, Tail(evs))
SegSound(sg) ==        \* a frame may begin in an earlier chunk, but ends in this one
  IF SoundFrom(R.s, 0, sg[2], sg[3]) THEN Stay(<<h, e, it, cnt, st>>)
  ELSE Reject("packet is not in the stream")
SegTotal(sg) ==
  IF 2 * Len(sg[3]) <= sg[2] THEN Stay(<<h, e, it, cnt, st>>) ELSE Reject("too many results")
SegKept(sg) ==
  IF /\ sg[4] <= sg[2] /\ sg[4] = sg[2] - Scan(R.s, 0, sg[2]).h
     /\ IsResidue(R.s, sg[2] - sg[4], sg[2])
  THEN Stay(<<h, e, it, cnt, st>>) ELSE Reject("what is kept is not the unfinished candidate")
(* C01: the results are those of the whole stream at the same place, and two *)
(* chunkings that reach the same byte agree on everything so far.             *)
SegInv(sg) ==
  IF /\ sg[5] + Len(sg[3]) <= Len(R.w)
     /\ SubSeq(R.w, sg[5] + 1, sg[5] + Len(sg[3])) = sg[3]
     /\ sg[2] = Len(R.s) => sg[5] + Len(sg[3]) = Len(R.w) /\ sg[4] = R.wl
     /\ \A i \in 1..Len(R.seg) :
           R.seg[i][2] = sg[2] => /\ R.seg[i][4] = sg[4]
                                  /\ R.seg[i][5] + Len(R.seg[i][3]) = sg[5] + Len(sg[3])
  THEN Stay(<<h, e, it, cnt, st>>) ELSE Reject("depends on the chunking")
(* C04: the errors of the segment are those of the scan, in order.            *)
Errs(evs) == SelectSeq(evs, LAMBDA x : x[1] \in {"k", "m", "o"})
SegErrors(sg) ==
  \E from \in {Scan(R.s, 0, sg[1]).h} :
  \E z \in {ScanAll(R.s, from, sg[2], <<>>)} :
  \E want \in {SelectSeq(z.out, LAMBDA r : r.k = "bad")} :
  \E seen \in {Errs(sg[3])} :
    IF Len(want) = Len(seen) /\ \A i \in 1..Len(want) : Matches(R.s, want[i], seen[i])
    THEN Stay(<<h, e, it, cnt, st>>) ELSE Reject("errors")
SegStep(sg) ==
  CASE Mode = "sound" -> SegSound(sg)
    [] Mode = "inv"   -> SegInv(sg)
    [] Mode = "errors" -> SegErrors(sg)
    [] Mode = "total" -> SegTotal(sg)
    [] Mode = "kept"  -> SegKept(sg)
    [] OTHER          -> SegFollow(sg)
EvStep(ev) ==
  CASE Mode = "sound" -> Sound(ev)
    [] Mode = "inv"   -> Invariance(ev)
    [] Mode = "total" -> Total(ev)
    [] Mode = "kept"  -> Kept(ev)
    [] OTHER          -> Follow(ev)

TNext == /\ st = "ok" /\ l < Size(R)
         /\ l' = l + 1 /\ t' = t
         /\ IF IsSeg(R) THEN SegStep(R.seg[l+1]) ELSE EvStep(R.ev[l+1])
TSpec == TInit /\ [][TNext]_vars
Accepted == st = "ok"
=============================================================================
