------------------------------- MODULE CobsMC -------------------------------
(* The specification's own laws: chunking does not matter, codings agree.  *)
EXTENDS Cobs
CONSTANTS Cfgs, Alphabet, MaxStream, MaxChunk
VARIABLE s
mvars == <<vars, s>>
Chunks == UNION {[1..n -> Alphabet] : n \in 0..MaxChunk}
Init == (\E c \in Cfgs : Init0(c)) /\ s = <<>>
Next == \E c \in Chunks : Len(s) + Len(c) <= MaxStream /\ Feed(c) /\ s' = s \o c
Spec == Init /\ [][Next]_mvars
ChunkingIrrelevant == LET x == Split(s) IN
  frames = Results(x[1]) /\ ended = Overs(x[1]) /\ acc = x[2] /\ over \in {ended, ended + 1}
\* s taken as data: its encoding has no zero, decodes to it, and is the only frame of the stream "encoding, zero"
RoundTrip == LET e == Encode(s) IN
  /\ \A j \in 1..Len(e) : e[j] # 0
  /\ Decode(e) = [r |-> "ok", d |-> s]
  /\ Len(e) <= Len(s) + 1 + (Len(s) \div Blk)
Recovers == LET e == Encode(s)  x == Split(e \o <<0>> \o e \o <<0>>) IN x = <<<<e, e>>, <<>>>>
=============================================================================
