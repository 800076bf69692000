-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The wire header and the keys, at the level of bytes.                    *)
(* A key of width w is a sequence of w bytes; a sequence number of width   *)
(* s is a sequence of s bytes, least significant first; a header is        *)
(* [key, seq]; a frame is a sequence of bytes.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC

KeyWidths == {1, 2, 4, 8}
SeqWidths == {1, 2, 4}
Log2(n) == CASE n = 1 -> 0 [] n = 2 -> 1 [] n = 4 -> 2 [] n = 8 -> 3
Min(a, b) == IF a < b THEN a ELSE b
Drop(s, n) == SubSeq(s, n + 1, Len(s))

\* ------------------------------------------------------------ headers (C05)
Disc(h) == 64 * Log2(Len(h.key)) + 16 * Log2(Len(h.seq))
Encode(h) == <<Disc(h)>> \o h.key \o h.seq
HeaderLen(h) == 1 + Len(h.key) + Len(h.seq)
None == [ok |-> FALSE]
Decode(b) ==
  IF b = <<>> THEN None
  ELSE LET kw == 2 ^ (b[1] \div 64)
           m  == (b[1] \div 16) % 4
           sw == 2 ^ m IN
       IF b[1] % 16 # 0 \/ m = 3 \/ Len(b) < 1 + kw + sw THEN None
       ELSE [ok |-> TRUE, key |-> SubSeq(b, 2, 1 + kw), seq |-> SubSeq(b, 2 + kw, 1 + kw + sw),
             rest |-> Drop(b, 1 + kw + sw)]

\* --------------------------------------------------------------- keys (C06)
RECURSIVE XorAll(_)
XorAll(s) == IF s = <<>> THEN 0 ELSE Head(s) ^^ XorAll(Tail(s))
\* the documented folding of a key to w bytes, w not above its width
Fold(k, w) == LET n == Len(k) \div w IN [i \in 1..w |-> XorAll(SubSeq(k, (i - 1) * n + 1, i * n))]
Shrink(k, w) == IF w < Len(k) THEN Fold(k, w) ELSE k
SameKey(a, b) == LET w == Min(Len(a), Len(b)) IN Fold(a, w) = Fold(b, w)
Convert(k, w) == IF w <= Len(k) THEN [ok |-> TRUE, key |-> Fold(k, w)] ELSE None
Resize(s, w) == [i \in 1..w |-> IF i <= Len(s) THEN s[i] ELSE 0]
SameSeq(a, b) == Resize(a, 4) = Resize(b, 4)

\* -------------------------------------------------------- key lengths (C07)
RECURSIVE Flatten(_)
Flatten(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o Flatten(Tail(ls))
Distinct(ks, w) == Cardinality({Fold(ks[i], w) : i \in 1..Len(ks)}) = Len(ks)
MinLen(ks) == IF Distinct(ks, 1) THEN 1 ELSE IF Distinct(ks, 2) THEN 2
              ELSE IF Distinct(ks, 4) THEN 4 ELSE IF Distinct(ks, 8) THEN 8 ELSE 0   \* 0: refused
=============================================================================
