----------------------------- MODULE GenStreams -----------------------------
(* Enumerates, from the specification's own vocabulary, streams of up to      *)
(* Depth tokens: intact frames, frames with a wrong checksum, truncated       *)
(* frames, oversize headers, stray sync bytes, noise.  One JSON array of       *)
(* bytes per stream is written to IOEnv.OUT.                                   *)
EXTENDS UbxStream, TLC, Json, IOUtils
CONSTANT Depth
Body(c, i, p) == <<c, i, Len(p) % 256, Len(p) \div 256>> \o p
Fr(c, i, p) == LET b == Body(c, i, p) IN <<Sync1, Sync2>> \o b \o Fletcher(b, 0, Len(b))
Bad(c, i, p, x, y) == LET b == Body(c, i, p) f == Fletcher(b, 0, Len(b))
                      IN <<Sync1, Sync2>> \o b \o <<(f[1] + x) % 256, (f[2] + y) % 256>>
Cut(f, n) == SubSeq(f, 1, n)
Tokens == {
  Fr(5, 1, <<6, 1>>),                          \* an acknowledgement
  Fr(181, 98, <<>>),                           \* sync bytes as class and id
  Fr(1, 98, <<181>>),                          \* payload that looks like a sync byte
  Fr(13, 4, <<181, 98, 5, 1, 0, 0, 6, 17>>),    \* payload that holds an intact frame
  Bad(5, 0, <<6, 1>>, 1, 0),
  Bad(5, 0, <<6, 1>>, 0, 255),
  Bad(9, 9, Fr(5, 1, <<6, 1>>), 3, 3),          \* rejected frame around an intact one
  Cut(Fr(5, 1, <<6, 1>>), 9), Cut(Fr(5, 1, <<6, 1>>), 7), Cut(Fr(5, 1, <<6, 1>>), 5),
  <<Sync1, Sync2, 1, 2, 241, 31>>,             \* 8177, one too long
  <<Sync1, Sync2, 1, 2, 255, 255>>,
  <<Sync1, Sync2, 1, 2, 3, 0>>,                 \* a candidate of 3 bytes of payload
  <<Sync1>>, <<Sync1, Sync2>>, <<Sync1, 0>>, <<Sync1, Sync1>>, <<Sync2>>, <<0>>, <<36, 71, 78>>
}
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE LET q == Seqs(n-1) IN q \cup {x \o y : x \in q, y \in Tokens}
Written == ndJsonSerialize(IOEnv.OUT, SetToSeq(Seqs(Depth) \ {<<>>}))
ASSUME Written
VARIABLE written
Init == written = 0
Next == FALSE /\ written' = written
=============================================================================
