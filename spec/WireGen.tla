------------------------------- MODULE WireGen ------------------------------
(* Inputs for the real header and key code: case number n of a seed.       *)
EXTENDS Wire, Json
CONSTANTS Seed, From, To, Which
\* pseudo-random numbers: R(n, i) in 0..65535 for case n, draw i
Mix(x) == LET a == (x * 25173 + 13849) % 65536 IN ((a ^^ (a \div 128)) * 14397 + 29573) % 65536
R(n, i) == Mix(Mix(Mix((Seed * 977 + n) % 65536) ^^ ((n \div 17 + i * 257) % 65536)) ^^ ((i * 40503) % 65536))
Pick(n, i, s) == s[1 + ((R(n, i) \div 7) % Len(s))]
Byte(n, i) == LET r == R(n, i) IN
  IF r % 5 = 0 THEN Pick(n, i + 1000, <<0, 1, 127, 128, 254, 255, 15, 16>>) ELSE (r \div 5) % 256
Bts(n, i, len) == [j \in 1..len |-> Byte(n, i + j)]
KW(n, i) == Pick(n, i, <<1, 2, 4, 8>>)
SW(n, i) == Pick(n, i, <<1, 2, 4>>)
\* a byte sequence that differs from k by v, xor-ed into positions i and j
Tweak(k, i, j, v) == [p \in 1..Len(k) |-> k[p] ^^ ((IF p = i THEN v ELSE 0) ^^ (IF p = j THEN v ELSE 0))]
Header(n) == [key |-> Bts(n, 10, KW(n, 1)), seq |-> Bts(n, 30, SW(n, 2))]

Enc(n) == LET h == Header(n) IN
  [op |-> "enc", key |-> h.key, seq |-> h.seq, body |-> Bts(n, 50, R(n, 3) % 7), buf |-> (HeaderLen(h) + 14 - (R(n, 4) % 17)) % 18,
   fill |-> Byte(n, 90)]
Dec(n) ==
  LET h == Encode(Header(n)) \o Bts(n, 50, R(n, 3) % 4)
      r == R(n, 5) % 8 IN
  [op |-> "dec", b |->
     CASE r \in {0, 1} -> SubSeq(h, 1, R(n, 6) % (Len(h) + 1))              \* cut anywhere
       [] r = 2 -> [h EXCEPT ![1] = (@ \div 16) * 16 + 1 + (R(n, 6) % 15)]    \* another version
       [] r = 3 -> [h EXCEPT ![1] = (@ \div 64) * 64 + 48]                  \* reserved sequence length
       [] r \in {4, 5} -> Bts(n, 100, R(n, 7) % 18)                         \* anything
       [] r = 6 -> [h EXCEPT ![1] = Byte(n, 91)]
       [] OTHER -> h]
Shr(n) == [op |-> "shrink", key |-> Bts(n, 10, KW(n, 1)), a |-> KW(n, 2), b |-> KW(n, 3)]
Other(n, k) ==
  LET r == R(n, 8) % 6 IN
  CASE r = 0 -> Bts(n, 60, KW(n, 4))
    [] r = 1 -> Shrink(k, KW(n, 4))
    [] r = 2 -> Shrink(Tweak(k, 1 + (R(n, 5) % Len(k)), 1 + (R(n, 6) % Len(k)), Byte(n, 92)), KW(n, 4))
    [] r = 3 -> Shrink(Tweak(k, 1 + (R(n, 5) % Len(k)), 0, 1 + (Byte(n, 92) % 255)), KW(n, 4))
    [] r = 4 -> Shrink([i \in 1..Len(k) |-> k[Len(k) + 1 - i]], KW(n, 4))
    [] OTHER -> LET p == 2 * (R(n, 5) % 4) + 1 IN Tweak(k, IF p < Len(k) THEN p ELSE 0, IF p < Len(k) THEN p + 1 ELSE 0, Byte(n, 92))
Equal(n) == LET k == Bts(n, 10, KW(n, 1)) IN [op |-> "eq", key |-> k, other |-> Other(n, k)]
Conv(n) == [op |-> "conv", key |-> Bts(n, 10, KW(n, 1))]
SeqC(n) == LET s == Bts(n, 10, SW(n, 1)) IN
  [op |-> "seq", seq |-> s, to |-> SW(n, 2),
   other |-> IF R(n, 3) % 2 = 0 THEN Resize(s, SW(n, 4)) ELSE Bts(n, 20, SW(n, 4))]
\* key lists around one or two keys, colliding at chosen lengths
KeyOf(n, i) ==
  LET base == Bts(n, 10 + 100 * (R(n, 300 + i) % 2), 8)
      v == 1 + (Byte(n, 400 + i) % 255)
      p == R(n, 500 + i) % 4
      r == R(n, 600 + i) % 8 IN
  CASE r = 0 -> Tweak(base, 2 * p + 1, 2 * p + 2, v)                     \* same at 4
    [] r = 1 -> Tweak(base, 4 * (p \div 2) + 1, 4 * (p \div 2) + 3, v)   \* same at 2
    [] r = 2 -> Tweak(base, 1 + p, 5 + p, v)                             \* same at 1
    [] r = 3 -> base
    [] r = 4 -> Tweak(base, 1 + 2 * p, 0, v)
    [] OTHER -> Bts(n, 700 + 20 * i, 8)
MinC(n) ==
  LET nl == R(n, 1) % 4
      cnt(j) == R(n, 20 + j) % 4 IN
  [op |-> "min", lists |-> [j \in 1..nl |-> [i \in 1..cnt(j) |->
      IF R(n, 5) % 3 = 0 THEN KeyOf(n, 10 * j + i) ELSE \* mostly distinct keys, one pair at most
        IF i = 1 /\ j <= 2 THEN KeyOf(n, 10 * j + i) ELSE Bts(n, 900 + 200 * j + 20 * i, 8)]]]
Case(n) == CASE Which = "header" -> IF n % 2 = 0 THEN Enc(n) ELSE Dec(n)
             [] Which = "key" -> (CASE n % 4 = 0 -> Shr(n) [] n % 4 = 1 -> Equal(n) [] n % 4 = 2 -> Conv(n) [] OTHER -> SeqC(n))
             [] Which = "min" -> MinC(n)
VARIABLES case, go
\* in two steps, so that TLC's workers share the work
GInit == case \in {64 * i : i \in (From \div 64)..(To \div 64)} /\ go = FALSE
GNext == ~go /\ go' = TRUE /\ case' \in {x \in case..(case + 63) : x >= From /\ x <= To}
GSpec == GInit /\ [][GNext]_<<case, go>>
Emit == go => PrintT("SCRIPT " \o ToJson(Case(case) @@ [n |-> case]))
=============================================================================
