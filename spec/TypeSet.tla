------------------------------ MODULE TypeSet -------------------------------
(***************************************************************************)
(* Message types, as the schema trees the code computes type lists from.   *)
(* A node is [n: name, k: kind, f: field names, c: children]; the children *)
(* of an enum are its variants, which are not types themselves.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Prims == {"bool", "i8", "u8", "i16", "i32", "i64", "i128", "u16", "u32", "u64", "u128", "usize", "isize",
          "f32", "f64", "char", "string", "bytearray", "unit", "schema"}
One == {"option", "newtype", "seq"}
Many == {"tuple", "tuplestruct", "struct"}
Variants == {"v-unit", "v-newtype", "v-tuple", "v-struct"}
Range(s) == {s[i] : i \in 1..Len(s)}
\* every node of a tree
RECURSIVE Nodes(_)
Nodes(t) == {t} \union UNION {Nodes(t.c[i]) : i \in 1..Len(t.c)}
\* what the type list of t has to contain: every type in it that is not built in
IsType(t) == t.k \notin Prims \union Variants
Reach(t) == {x \in Nodes(t) : IsType(x)}
ReachAll(ts) == UNION {Reach(ts[i]) : i \in 1..Len(ts)}
NoDup(s) == Cardinality(Range(s)) = Len(s)
\* a type list computed for roots ts is right if it is
Right(list, ts) == NoDup(list) /\ Range(list) = ReachAll(ts)

\* the algorithm the code follows: children first, then the type itself, skipping what is known
AddTo(out, x) == IF x \in Range(out) \/ ~IsType(x) THEN out ELSE Append(out, x)
RECURSIVE AddAll(_, _)
AddAll(out, l) == IF l = <<>> THEN out ELSE AddAll(AddTo(out, Head(l)), Tail(l))
RECURSIVE Collect(_), CollectAll(_, _)
Collect(t) == AddTo(CollectAll(<<>>, t.c), t)
CollectAll(out, cs) == IF cs = <<>> THEN out ELSE CollectAll(AddAll(out, Collect(Head(cs))), Tail(cs))
RECURSIVE Merge(_, _)
Merge(out, ls) == IF ls = <<>> THEN out ELSE Merge(AddAll(out, Head(ls)), Tail(ls))
\* an upper bound on the length of the list, known before computing it
RECURSIVE Upper(_), SumUpper(_)
SumUpper(cs) == IF cs = <<>> THEN 0 ELSE Upper(Head(cs)) + SumUpper(Tail(cs))
Upper(t) == SumUpper(t.c) + (IF IsType(t) THEN 1 ELSE 0)

\* all trees of a given depth over a few names
P(k) == [n |-> k, k |-> k, f |-> <<>>, c |-> <<>>]
U(n) == [n |-> n, k |-> "unitstruct", f |-> <<>>, c |-> <<>>]
T(n, k, cs) == [n |-> n, k |-> k, f |-> <<>>, c |-> cs]
S(n, k, fs, cs) == [n |-> n, k |-> k, f |-> fs, c |-> cs]
Pairs(X) == {<<x, y>> : x, y \in X}
Up(X, Names) ==
  LET ps == Pairs(X) IN
  {T(n, k, <<x>>) : n \in Names, k \in One, x \in X}
  \union {T(n, k, p) : n \in Names, k \in {"tuple", "tuplestruct", "map"}, p \in ps}
  \union {S(n, "struct", <<"a", "b">>, p) : n \in Names, p \in ps}
  \union {T(n, "enum", <<T("v", v, <<p[1]>>), T("w", w, <<p[2]>>)>>) :
            n \in Names, v, w \in {"v-newtype", "v-tuple"}, p \in ps}
  \union {T(n, "enum", <<T("z", "v-unit", <<>>), S("s", "v-struct", <<"a", "b">>, p)>>) : n \in Names, p \in ps}
=============================================================================
