------------------------------- MODULE IcdMC --------------------------------
(* Known answers of FNV-1a; the keys of all small declarations: renaming a type changes nothing, and no   *)
(* two different contents share a key, not even folded into fewer than eight bytes by accident of the sum. *)
EXTENDS Icd
CONSTANTS Paths
ASSUME Hash(<<>>) = Basis
ASSUME Hash(<<97>>) = <<140, 236, 1, 134, 76, 220, 99, 175>>                              \* "a": af63dc4c8601ec8c
ASSUME Hash(<<102, 111, 111, 98, 97, 114>>) = <<232, 103, 57, 247, 113, 65, 148, 133>>    \* "foobar": 85944171f73967e8
N(n, k, f, c) == [n |-> n, k |-> k, f |-> f, c |-> c]
Lf == { N(n, k, <<>>, <<>>) : n \in {<<65>>, <<66>>}, k \in {"u8", "u16", "unit", "unitstruct"} }
L2 == { N(<<65>>, k, <<>>, <<a>>) : k \in {"option", "newtype", "seq", "tuple"}, a \in Lf }
      \union { N(<<65>>, "struct", <<f>>, <<a>>) : f \in {<<97>>, <<98>>}, a \in Lf }
      \union { N(<<65>>, "map", <<>>, <<a, b>>) : a, b \in { x \in Lf : x.n = <<65>> } }
      \union { N(<<65>>, "enum", <<>>, <<N(<<118>>, v, <<>>, IF v = "v-unit" THEN <<>> ELSE <<a>>)>>) : v \in {"v-unit", "v-newtype", "v-tuple"}, a \in Lf }
Trees == Lf \union L2
VARIABLES p, t, go
RECURSIVE Ren(_)
Ren(y) == [y EXCEPT !.n = IF y.k \in Variants THEN @ ELSE <<1>>, !.c = [i \in 1..Len(y.c) |-> Ren(y.c[i])]]
Spec == p \in Paths /\ t \in Trees /\ go = FALSE /\ [][~go /\ go' = TRUE /\ UNCHANGED <<p, t>>]_<<p, t, go>>
NamesDontCount == go => Key(p, t) = Key(p, Ren(t))
AllTs == Trees
Separates == go => \A q \in Paths : \A u \in AllTs : (Key(p, t) = Key(q, u)) <=> (p \o Flat(t) = q \o Flat(u))
=============================================================================
