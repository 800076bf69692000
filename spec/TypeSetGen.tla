----------------------------- MODULE TypeSetGen -----------------------------
(* Trees to run the real collectors on: every small one, then larger pseudo-random ones. *)
EXTENDS TypeSet, Json, Bitwise
CONSTANTS Seed, From, To, Deep, Which
Mix(x) == LET a == (x * 25173 + 13849) % 65536 IN ((a ^^ (a \div 128)) * 14397 + 29573) % 65536
R(n, i) == Mix(Mix(Mix((Seed * 977 + n) % 65536) ^^ ((n \div 17 + i * 257) % 65536)) ^^ ((i * 40503) % 65536))
Pick(n, i, s) == s[1 + ((R(n, i) \div 7) % Len(s))]
PrimSeq == <<"bool", "i8", "u8", "i16", "i32", "i64", "i128", "u16", "u32", "u64", "u128", "usize", "isize",
             "f32", "f64", "char", "string", "bytearray", "unit", "schema">>
Nm(n, i) == Pick(n, i, <<"A", "B", "AB", "Ac", "">>)
Fs(n, i, len) == [j \in 1..len |-> Pick(n, i + j, <<"a", "b", "ab">>)]
\* the subtree with number i of case n; few numbers per depth, so that subtrees repeat
RECURSIVE Tree(_, _, _)
Kids(n, i, d, len) == [j \in 1..len |-> Tree(n, 100 * d + (R(n, i + 7 * j) % 6), d - 1)]
Var(n, i, d) ==
  LET v == Pick(n, i, <<"v-unit", "v-newtype", "v-newtype", "v-tuple", "v-struct">>)
      len == CASE v = "v-unit" -> 0 [] v = "v-newtype" -> 1 [] OTHER -> R(n, i + 1) % 3 IN
  [n |-> Nm(n, i + 2), k |-> v, f |-> IF v = "v-struct" THEN Fs(n, i + 3, len) ELSE <<>>, c |-> Kids(n, i + 31, d, len)]
Tree(n, i, d) ==
  LET q == 1000 * d + 37 * i
      r == R(n, q) % 12 IN
  IF d = 0 \/ r = 0 THEN IF R(n, q + 1) % 2 = 0 THEN P(Pick(n, q + 2, PrimSeq)) ELSE U(Nm(n, q + 3))
  ELSE LET k == CASE r = 1 -> "option" [] r = 2 -> "newtype" [] r = 3 -> "seq" [] r = 4 -> "tuple" [] r = 5 -> "tuplestruct"
                  [] r = 6 -> "map" [] r \in {7, 8} -> "struct" [] OTHER -> "enum"
           len == CASE k \in One -> 1 [] k = "map" -> 2 [] OTHER -> R(n, q + 4) % 4 IN
       [n |-> Nm(n, q + 5), k |-> k, f |-> IF k = "struct" THEN Fs(n, q + 6, len) ELSE <<>>,
        c |-> IF k = "enum" THEN [j \in 1..len |-> Var(n, q + 50 * j, d)] ELSE Kids(n, q + 11, d, len)]
\* one node of t changed a little: a type that must not be taken for t
RECURSIVE Twist(_, _, _)
Twist(n, i, t) ==
  LET r == R(n, i) % 4 IN
  IF r > 0 /\ Len(t.c) > 0 THEN LET j == 1 + (R(n, i + 1) % Len(t.c)) IN [t EXCEPT !.c[j] = Twist(n, i + 2, t.c[j])]
  ELSE IF Len(t.f) > 0 /\ R(n, i + 6) % 3 > 0 THEN [t EXCEPT !.f[1 + (R(n, i + 7) % Len(t.f))] = "zz"]
  ELSE IF t.k \in Prims THEN P(Pick(n, i + 3, PrimSeq))
  ELSE IF t.k \in One /\ R(n, i + 4) % 2 = 0 THEN [t EXCEPT !.k = Pick(n, i + 5, <<"option", "newtype", "seq">>)]
  ELSE IF t.k \in {"tuple", "tuplestruct"} /\ R(n, i + 4) % 2 = 0 THEN [t EXCEPT !.k = Pick(n, i + 5, <<"tuple", "tuplestruct">>)]
  ELSE IF t.k = "v-newtype" /\ R(n, i + 4) % 2 = 0 THEN [t EXCEPT !.k = "v-tuple"]
  ELSE [t EXCEPT !.n = "Z" \o @]
\* a pair of types that differ in one place, side by side in one message type or in two lists
Side(n, a, b) ==
  LET r == R(n, 21) % 6 IN
  CASE r = 0 -> T("P", "tuple", <<a, b>>)
    [] r = 1 -> S("P", "struct", <<"x", "y">>, <<a, b>>)
    [] r = 2 -> T("P", "map", <<a, b>>)
    [] r = 3 -> T("P", "enum", <<T("m", "v-newtype", <<a>>), T("o", "v-newtype", <<b>>)>>)
    [] r = 4 -> T("P", "enum", <<S("m", "v-struct", <<"x", "y">>, <<a, b>>)>>)
    [] OTHER -> T("P", "enum", <<T("m", "v-tuple", <<a, b>>), T("o", "v-newtype", <<T("Q", "option", <<b>>)>>)>>)
Case(n) ==
  LET a == Tree(n, 1, 1 + (n % Deep))
      b == IF R(n, 20) % 4 = 0 THEN Tree(n, 2, Deep - 1) ELSE Twist(n, 30, a) IN
  IF n % 4 = 0 THEN [op |-> "one", t |-> a]
  ELSE IF n % 4 = 1 THEN [op |-> "one", t |-> Side(n, a, b)]
  ELSE [op |-> "merge", ts |-> IF n % 4 = 2 THEN <<a, b>> ELSE <<b, a, Twist(n, 60, b), a>>]
L0 == {P("u8"), U("U")}
L1 == Up(L0, {"N"})
L2 == Up(L1, {"M"})
VARIABLES case, go
Roots == L0 \union L1 \union L2
\* in two steps, so that TLC's workers share the work
GInit == (IF Which = "all" THEN case \in Roots ELSE case \in {64 * i : i \in (From \div 64)..(To \div 64)}) /\ go = FALSE
GNext == ~go /\ go' = TRUE /\ IF Which = "all" THEN UNCHANGED case ELSE case' \in {x \in case..(case + 63) : x >= From /\ x <= To}
GSpec == GInit /\ [][GNext]_<<case, go>>
Emit == go => PrintT("SCRIPT " \o ToJson(IF Which = "all" THEN [op |-> "one", t |-> case] ELSE Case(case)))
=============================================================================
