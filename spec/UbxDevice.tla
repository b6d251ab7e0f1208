------------------------------ MODULE UbxDevice ------------------------------
(* The command line program (examples/ublox-cli) and the receiver it talks to     *)
(* (C22).  The host opens the port, possibly configures a port of the receiver,   *)
(* asks for NAV-PVT, and polls MON-VER; before each step but the first it waits    *)
(* for the acknowledgement of the message it sent.                                 *)
(*                                                                                *)
(* The receiver's bytes are, for the host, a sequence of tokens: the frames the    *)
(* stream parser finds, each with the acknowledged class and id if it is an        *)
(* acknowledgement.  The host reads tokens in order, notices the awaited           *)
(* acknowledgement, and proceeds when it next finds nothing to read; what it read  *)
(* meanwhile is gone.                                                              *)
EXTENDS Integers, Sequences, SequencesExt

(* host state: ph messages sent, got tokens read, found the awaited ack            *)
Init0 == [ph |-> 0, got |-> 0, found |-> FALSE]
(* needs: for each message the acknowledgement it awaits (<<>>: none, read on)     *)
CanSend(h, needs) == h.ph < Len(needs) /\ (h.ph = 0 \/ h.found)
Send(h) == [ph |-> h.ph + 1, got |-> h.got, found |-> FALSE]
CanRead(h, n) == h.ph > 0 /\ h.got < n
Read(h, needs, toks) ==
  [h EXCEPT !.got = @ + 1, !.found = @ \/ (needs[h.ph] # <<>> /\ toks[h.got + 1] = needs[h.ph])]
RECURSIVE Closure(_, _, _)
Closure(H, needs, toks) ==      \* after any reads
  LET N == H \cup {Read(h, needs, toks) : h \in {g \in H : CanRead(g, Len(toks))}}
  IN IF N = H THEN H ELSE Closure(N, needs, toks)
(* the host has read all, and is to send                                           *)
Due(h, needs, toks) == h.got = Len(toks) /\ CanSend(h, needs)
(* it may rest: it has read all and need not send                                  *)
MayRest(h, needs, toks) == h.ph > 0 /\ h.got = Len(toks) /\ ~CanSend(h, needs)
=============================================================================
