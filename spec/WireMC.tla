------------------------------- MODULE WireMC -------------------------------
(* The laws of Wire, for every header and every key over a small alphabet. *)
EXTENDS Wire
CONSTANTS Alpha, Tails, Which
Bytes(n) == [1..n -> Alpha]
VARIABLES x, done
Init ==
  /\ done = FALSE
  /\ CASE Which = "header" -> \E w \in KeyWidths, s \in SeqWidths : \E k \in Bytes(w), q \in Bytes(s) : x = [key |-> k, seq |-> q]
       [] Which = "bytes" -> \E d \in 0..255, n \in 0..14, f \in Alpha : x = IF n = 0 THEN <<>> ELSE <<d>> \o [i \in 1..(n - 1) |-> (f + i) % 256]
       [] Which = "key" -> x \in Bytes(8)
       [] Which = "keys" -> \E a \in Bytes(2), b \in Bytes(4), c \in Bytes(4) : x = <<[i \in 1..8 |-> a[1 + (i % 2)]], [i \in 1..8 |-> IF i % 2 = 0 THEN b[i \div 2] ELSE 0], c \o c>>
Next == ~done /\ done' = TRUE /\ UNCHANGED x
Spec == Init /\ [][Next]_<<x, done>>

HeaderRoundTrips ==
  Which = "header" => \A p \in Tails :
     /\ Decode(Encode(x) \o p) = [ok |-> TRUE, key |-> x.key, seq |-> x.seq, rest |-> p]
     /\ Len(Encode(x)) = HeaderLen(x)
     /\ \A n \in 0..(HeaderLen(x) - 1) : ~Decode(SubSeq(Encode(x), 1, n)).ok
DecodeIsPartialInverse ==
  Which = "bytes" => LET d == Decode(x) IN
     d.ok => Encode([key |-> d.key, seq |-> d.seq]) \o d.rest = x
FoldingComposes ==
  Which = "key" => \A v, w \in KeyWidths :
     /\ w <= v => Fold(Fold(x, v), w) = Fold(x, w)
     /\ SameKey(Fold(x, v), Fold(x, w)) /\ SameKey(x, Fold(x, w))
     /\ Shrink(Shrink(x, v), w) = Fold(x, Min(v, w))
EqualIsSymmetric ==
  Which = "keys" => \A i, j \in 1..3, v, w \in KeyWidths :
     /\ SameKey(Fold(x[i], v), Fold(x[j], w)) = SameKey(Fold(x[j], w), Fold(x[i], v))
     \* collisions at a length persist at every shorter one
     /\ (SameKey(Fold(x[i], v), Fold(x[j], v)) /\ w <= v) => SameKey(Fold(x[i], w), Fold(x[j], w))
MinLenIsLeast ==
  Which = "keys" => LET m == MinLen(x) IN
     /\ m = 0 <=> Cardinality({x[1], x[2], x[3]}) < 3
     /\ m # 0 => \A w \in KeyWidths : Distinct(x, w) <=> w >= m
=============================================================================
