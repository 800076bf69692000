-------------------------------- MODULE Cobs --------------------------------
(***************************************************************************)
(* Recovering frames from a byte stream: the stream is cut after every     *)
(* zero; each piece is a frame, or discarded (malformed, or too long for   *)
(* the accumulator).  How the bytes are fed in does not matter.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANT Blk   \* longest run of bytes without a zero in one block (254)
VARIABLES
  cfg,     \* [n: capacity of the accumulator]
  acc,     \* bytes since the last zero
  frames,  \* results so far: [r: "ok" or "bad", d: the decoded bytes]
  over,    \* pieces known to be too long: all of them, and those already ended
  ended
vars == <<cfg, acc, frames, over, ended>>
Init0(c) == cfg = c /\ acc = <<>> /\ frames = <<>> /\ over = 0 /\ ended = 0

\* what a piece (without its zero) stands for; a block of Blk bytes is not followed by a zero
\* left: bytes of the block still to come; gap: does a zero precede the next block?
DecStep(s, b) ==
  IF s.left > 0 THEN [s EXCEPT !.left = @ - 1, !.d = Append(@, b)]
  ELSE [d |-> IF s.gap THEN Append(s.d, 0) ELSE s.d, left |-> b - 1, gap |-> b <= Blk]
Decode(e) == LET s == FoldLeft(DecStep, [d |-> <<>>, left |-> 0, gap |-> FALSE], e) IN
  IF s.left > 0 THEN [r |-> "bad", d |-> <<>>] ELSE [r |-> "ok", d |-> s.d]
\* an encoding of d
EncStep(s, b) ==
  LET t == IF Len(s.run) = Blk THEN [out |-> s.out \o <<Blk + 1>> \o s.run, run |-> <<>>] ELSE s IN
  IF b = 0 THEN [out |-> t.out \o <<Len(t.run) + 1>> \o t.run, run |-> <<>>] ELSE [t EXCEPT !.run = Append(@, b)]
Encode(d) == LET s == FoldLeft(EncStep, [out |-> <<>>, run |-> <<>>], d) IN s.out \o <<Len(s.run) + 1>> \o s.run

Fits(e) == Len(e) + 1 <= cfg.n
\* cut s after every zero: <<pieces, rest>>
SplitStep(s, b) == IF b = 0 THEN <<Append(s[1], s[2]), <<>>>> ELSE <<s[1], Append(s[2], b)>>
Split(s) == FoldLeft(SplitStep, <<<<>>, <<>>>>, s)
Results(ps) == LET q == SelectSeq(ps, Fits) IN [j \in 1..Len(q) |-> Decode(q[j])]
Overs(ps) == Len(SelectSeq(ps, LAMBDA e : ~Fits(e)))

Feed(chunk) ==
  LET x == Split(acc \o chunk) IN
  /\ acc' = x[2] /\ frames' = frames \o Results(x[1])
  /\ ended' = ended + Overs(x[1]) /\ over' = ended' + (IF Fits(x[2]) THEN 0 ELSE 1)
  /\ UNCHANGED cfg
=============================================================================
