----------------------------- MODULE TypeSetMC ------------------------------
(* The algorithm computes the right list, for every pair of small trees. *)
EXTENDS TypeSet
CONSTANTS Leaves, Names, Kinds
L0 == {P(k) : k \in Leaves} \union {U("U")}
L1 == Up(L0, Names)
L2 == Up(L1, {"M"})
VARIABLES t, u
VARIABLE set
Init == t \in L0 \union L1 \union L2 /\ u = t /\ set = FALSE
Next == ~set /\ set' = TRUE /\ u' \in L0 \union {x \in L1 : x.k \in Kinds} /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, u, set>>
CollectIsRight == set => /\ Right(Collect(t), <<t>>) /\ Len(Collect(t)) <= Upper(t)
                         /\ Range(Collect(t)) = {x \in Range(Collect(t)) : IsType(x)}
MergeIsRight == set => /\ Right(Merge(<<>>, <<Collect(t), Collect(u)>>), <<t, u>>)
                       /\ Right(Merge(<<>>, <<Collect(u), Collect(t), Collect(u)>>), <<t, u>>)
=============================================================================
