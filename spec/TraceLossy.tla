------------------------------ MODULE TraceLossy ------------------------------
(***************************************************************************)
(* Judges runs of the real parser whose iterators are dropped early (C26).  *)
(* Events as in TraceParser; after each drop the number of bytes kept        *)
(* decides among the drops the specification allows.                         *)
(***************************************************************************)
EXTENDS UbxLossy, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l,
          f,      \* bytes of the stream fed so far
          ps,     \* what may be pending: a drop can leave more than one possibility
          it, st
vars == <<t, l, f, ps, it, st>>
R == Trace[t]
TInit == t \in 1..Len(Trace) /\ l = 0 /\ f = 0 /\ ps = {<<>>} /\ it = "idle" /\ st = "ok"
Set(ff, pp, ii) == f' = ff /\ ps' = pp /\ it' = ii /\ st' = "ok"
Reject(why) == UNCHANGED <<f, ps, it>> /\ st' = why

AsEvent(s, r) ==
  CASE r.k = "none"  -> <<"n">>
    [] r.k = "frame" -> <<"p", s[r.at+3], s[r.at+4], SubSeq(s, r.at+7, r.at+6+r.n)>>
    [] r.k = "bad"   -> <<"k", r.expect, r.got>>
    [] r.k = "oom"   -> <<"m", r.required>>
Matches(s, r, ev) == ev[1] = AsEvent(s, r)[1] /\ ev = AsEvent(s, r)

Result(ev) ==
  \E ok \in {UNION {{After(p, r) : r \in {x \in NextResults(p, R.cap) : Matches(p, x, ev)}} : p \in ps}} :
    IF ok = {} THEN Reject("not a result of the kept bytes and the fed ones")
    ELSE Set(f, ok, IF ev[1] = "n" THEN "done" ELSE "live")
Dropped(ev) ==
  IF ev[3] # (IF ev[2] = 0 THEN 1 ELSE 0) THEN Reject("emptiness")
  ELSE \E ok \in {UNION {{q \in Drops(p, R.cap) : Len(q) = ev[2]} : p \in ps}} :
    IF ok = {} THEN Reject("number of bytes kept by the drop")
    ELSE Set(f, ok, "idle")
Event(ev) ==
  CASE ev[1] = "c" -> Set(f + ev[2], {p \o SubSeq(R.s, f + 1, f + ev[2]) : p \in ps}, "live")
    [] ev[1] \in {"p", "k", "m", "n"} ->
         IF it # "done" THEN Result(ev)
         ELSE IF ev = <<"n">> THEN Set(f, ps, it) ELSE Reject("result after None")
    [] ev[1] = "d" -> Dropped(ev)
    [] OTHER -> Reject("panic, hang or other error")
TNext == /\ st = "ok" /\ l < Len(R.ev)
         /\ l' = l + 1 /\ t' = t
         /\ Event(R.ev[l+1])
TSpec == TInit /\ [][TNext]_vars
Accepted == st = "ok"
=============================================================================
