----------------------------- MODULE SchemaEach -----------------------------
(* Scripts: each single message of a device map lost, not sent, repeated, or lost with a neighbour repeated. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Size
Modes == {"lose", "fail", "dup", "after", "before"}
Ev(a) == [a |-> a]
RECURSIVE Dl(_)
Dl(n) == IF n <= 0 THEN <<>> ELSE LET k == IF n > 40 THEN 40 ELSE n IN <<[a |-> "Deliver", k |-> k, c |-> 1]>> \o Dl(n - k)
Lose1 == <<[a |-> "Lose", k |-> 1]>>
Dup1 == <<[a |-> "Deliver", k |-> 1, c |-> 2]>>
Serve(f) == <<[a |-> "Start", d |-> 1], [a |-> "Serve", fail |-> f, tot |-> TRUE]>>
\* Size messages and the totals are on their way
Middle(i, m) ==
  CASE m = "lose" -> Dl(i - 1) \o Lose1 \o Dl(Size + 1 - i)
    [] m = "dup" -> Dl(i - 1) \o Dup1 \o Dl(Size + 1 - i)
    [] m = "after" -> Dl(i - 1) \o Lose1 \o Dup1 \o Dl(Size - i)
    [] m = "before" -> Dl(i - 2) \o Dup1 \o Lose1 \o Dl(Size + 1 - i)
    [] m = "fail" -> Dl(Size)
Script(i, m) == Serve(IF m = "fail" THEN <<i>> ELSE <<>>) \o Middle(i, m) \o <<[a |-> "Tick", ms |-> 150], [a |-> "Tick", ms |-> 150]>>
VARIABLES i, m, go
GInit == i \in 1..Size /\ m \in Modes /\ (m = "before" => i > 1) /\ (m = "after" => i < Size) /\ go = FALSE
GSpec == GInit /\ [][~go /\ go' = TRUE /\ UNCHANGED <<i, m>>]_<<i, m, go>>
Emit == go => PrintT("SCRIPT " \o ToJson([ev |-> Script(i, m)]))
=============================================================================
