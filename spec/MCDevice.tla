------------------------------ MODULE MCDevice ------------------------------
(* The dialogue of UbxDevice, all interleavings of a receiver's tokens with the    *)
(* host, checked exhaustively.                                                     *)
EXTENDS UbxDevice
CONSTANTS Needs, Tokens, MaxToks
VARIABLES toks, host, marks      \* marks[k]: how many tokens had been read when message k was sent
vars == <<toks, host, marks>>
Init == toks = <<>> /\ host = Init0 /\ marks = <<>>
Device == Len(toks) < MaxToks /\ \E t \in Tokens : toks' = Append(toks, t) /\ UNCHANGED <<host, marks>>
HostSends == CanSend(host, Needs) /\ host' = Send(host) /\ marks' = Append(marks, host.got) /\ UNCHANGED toks
HostReads == CanRead(host, Len(toks)) /\ host' = Read(host, Needs, toks) /\ UNCHANGED <<toks, marks>>
Next == Device \/ HostSends \/ HostReads
Spec == Init /\ [][Next]_vars /\ WF_vars(HostSends) /\ WF_vars(HostReads)
(* every message but the first was sent after the acknowledgement of the one before *)
Acknowledged == \A k \in 2..Len(marks) : \E j \in marks[k-1]+1..marks[k] : toks[j] = Needs[k-1]
InOrder == Len(marks) = host.ph /\ \A k \in 2..Len(marks) : marks[k-1] < marks[k]
(* an acknowledgement which comes in time is heeded                                *)
Heeds == \A k \in 1..Len(Needs)-1 :
           (host.ph = k /\ \E j \in host.got+1..Len(toks) : toks[j] = Needs[k]) ~> host.ph > k
(* the subset construction the judge uses covers what the host can do              *)
Covered == host.ph > 0 => host \in Closure({[host EXCEPT !.got = marks[host.ph], !.found = FALSE]}, Needs, toks)
N2 == <<<<6, 0>>, <<6, 1>>, <<>>>>
T3 == {<<6, 0>>, <<6, 1>>, <<>>}
=============================================================================
