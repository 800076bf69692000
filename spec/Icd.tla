-------------------------------- MODULE Icd ---------------------------------
(***************************************************************************)
(* What a declaration of endpoints and topics means: the keys are the      *)
(* FNV-1a hashes (64 bit) of path and type, and the lists contain exactly  *)
(* the declared items and, unless left out, the standard ones.             *)
(* Names are sequences of bytes; types are trees as in TypeSet.            *)
(***************************************************************************)
EXTENDS TypeSet, SequencesExt, Bitwise
-----------------------------------------------------------------------------
(* FNV-1a on eight bytes, least significant first; the prime is 2^40 + 435 *)
Basis == <<37, 35, 34, 132, 228, 156, 242, 203>>
Mul(x) ==
  LET a == x[1] * 435
      b == x[2] * 435 + (a \div 256)
      c == x[3] * 435 + (b \div 256)
      d == x[4] * 435 + (c \div 256)
      e == x[5] * 435 + (d \div 256)
      f == x[6] * 435 + x[1] + (e \div 256)
      g == x[7] * 435 + x[2] + (f \div 256)
      h == x[8] * 435 + x[3] + (g \div 256)
  IN <<a % 256, b % 256, c % 256, d % 256, e % 256, f % 256, g % 256, h % 256>>
Hash(bytes) == FoldLeft(LAMBDA s, b : Mul([s EXCEPT ![1] = @ ^^ b]), Basis, bytes)
\* the bytes a type contributes: names of types do not count, names of fields and variants do
Code == [bool |-> 17, i8 |-> 197, u8 |-> 61, i16 |-> 29, i32 |-> 13, i64 |-> 11, i128 |-> 2, u16 |-> 131, u32 |-> 211, u64 |-> 19,
         u128 |-> 139, usize |-> 107, isize |-> 173, f32 |-> 239, f64 |-> 113, char |-> 193, string |-> 37, bytearray |-> 101,
         option |-> 109, unit |-> 71, unitstruct |-> 191, newtype |-> 157, seq |-> 3, tuple |-> 167, tuplestruct |-> 5, map |-> 79,
         struct |-> 127, enum |-> 233, schema |-> 179]
VCode == [u |-> 181, n |-> 223, t |-> 199, s |-> 103]
VC(k) == CASE k = "v-unit" -> 181 [] k = "v-newtype" -> 223 [] k = "v-tuple" -> 199 [] k = "v-struct" -> 103
RECURSIVE Flat(_), FlatAll(_, _, _)
FlatAll(t, i, named) ==
  IF i > Len(t.c) THEN <<>> ELSE (IF named THEN t.f[i] ELSE <<>>) \o Flat(t.c[i]) \o FlatAll(t, i + 1, named)
Flat(t) ==
  IF t.k \in Variants THEN t.n \o <<VC(t.k)>> \o FlatAll(t, 1, t.k = "v-struct")
  ELSE <<Code[t.k]>> \o FlatAll(t, 1, t.k = "struct")
Key(path, t) == Hash(path \o Flat(t))
-----------------------------------------------------------------------------
(* declarations: an entry is in force unless its condition is off *)
On(s) == SelectSeq(s, LAMBDA e : e.cfg # "off")
\* [p, rq, rs] of a list of endpoints; [p, k] of a list of topics
EpRows(s, Ty, Path) == { [p |-> Path[s[i].path], rq |-> Key(Path[s[i].path], Ty[s[i].req]), rs |-> Key(Path[s[i].path], Ty[s[i].resp])] : i \in 1..Len(s) }
TpRows(s, Ty, Path) == { [p |-> Path[s[i].path], k |-> Key(Path[s[i].path], Ty[s[i].msg])] : i \in 1..Len(s) }
EpTypes(s, Ty) == UNION { Reach(Ty[s[i].req]) \union Reach(Ty[s[i].resp]) : i \in 1..Len(s) }
TpTypes(s, Ty) == UNION { Reach(Ty[s[i].msg]) : i \in 1..Len(s) }
Lists(seq, set) == NoDup(seq) /\ Range(seq) = set
=============================================================================
