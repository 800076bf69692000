------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* Schema discovery: the server announces every type, endpoint and topic   *)
(* of its device map, one message each, then answers with totals; the      *)
(* client collects until nothing has come for a while, then reports.       *)
(* Msgs[m] is [k: "type" | "ep" | "in" | "out", needs: set of types].      *)
(* Several discoveries may run at once and see each other's messages.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NoD,       \* number of discoveries
          Wait,      \* the collector gives up after this many ms without a message
          Depth      \* messages a collector can hold unread
VARIABLES msgs, reqs, pipe, disc, closed
vars == <<msgs, reqs, pipe, disc, closed>>

N == Len(msgs)
Ds == 1..NoD
Idle == [st |-> "idle", col |-> {}, open |-> FALSE, timer |-> 0, tot |-> "none", errs |-> 0, odd |-> FALSE, res |-> "none"]
Init0 == reqs = <<>> /\ pipe = <<>> /\ disc = [d \in Ds |-> Idle] /\ closed = FALSE

\* the announced endpoints and topics are all there, each with the types it needs
Listed == {m \in 1..N : msgs[m].k # "type"}
Complete(x) == Listed \subseteq x.col /\ \A m \in Listed : msgs[m].needs \subseteq x.col
Verdicts(x) == IF x.tot = "ok" /\ x.errs = 0 /\ Complete(x)
               THEN IF x.odd THEN {"ok", "err"} ELSE {"ok"}   \* repeats may be refused
               ELSE {"err"}
\* a discovery is over once it has an answer and its collector has stopped
Ends(x) == x.st = "run" /\ x.tot # "none" /\ ~x.open
Go(f) == LET h == TLCEval(f) IN
         \E r \in [Ds -> {"ok", "err"}] :
           /\ \A d \in Ds : IF Ends(h[d]) THEN r[d] \in Verdicts(h[d]) ELSE r[d] = "err"
           /\ disc' = [d \in Ds |-> IF Ends(h[d]) THEN [h[d] EXCEPT !.st = "done", !.res = r[d]] ELSE h[d]]

Start(d) ==
  /\ disc[d].st = "idle"
  /\ IF closed THEN Go([disc EXCEPT ![d] = [Idle EXCEPT !.st = "done", !.res = "err"]]) /\ UNCHANGED reqs
     ELSE Go([disc EXCEPT ![d] = [Idle EXCEPT !.st = "run", !.open = TRUE]]) /\ reqs' = Append(reqs, d)
  /\ UNCHANGED <<msgs, pipe, closed>>
\* the server handles the next request: order is a sequence of <<message, sent?>>, every message of the map once
Serve(order, totok) ==
  /\ reqs # <<>>
  /\ {order[i][1] : i \in 1..Len(order)} = 1..N /\ Len(order) = N
  /\ LET sent == SelectSeq(order, LAMBDA x : x[2])
         errs == N - Len(sent) IN
     pipe' = pipe \o [i \in 1..Len(sent) |-> [m |-> sent[i][1], d |-> Head(reqs), e |-> 0]]
                  \o (IF totok THEN <<[m |-> 0, d |-> Head(reqs), e |-> errs]>> ELSE <<>>)
  /\ reqs' = Tail(reqs)
  /\ UNCHANGED <<msgs, disc, closed>>
\* k frames arrive at once (copies of each: more than one for a repeating link)
Data(fr) == Cardinality({i \in 1..Len(fr) : fr[i].m # 0})
Arrive(f, fr) ==
  LET new  == {fr[i].m : i \in {j \in 1..Len(fr) : fr[j].m # 0}}
      rep  == Cardinality(new) < Data(fr)
      tots(d) == {i \in 1..Len(fr) : fr[i].m = 0 /\ fr[i].d = d}
      ans(d, x) == IF x.st = "run" /\ x.tot = "none" /\ tots(d) # {}
                   THEN LET y == fr[CHOOSE i \in tots(d) : TRUE] IN [x EXCEPT !.tot = IF y.e < 0 THEN "err" ELSE "ok", !.errs = y.e] ELSE x
      data(x) == IF x.open /\ new # {} THEN [x EXCEPT !.col = @ \union new, !.odd = @ \/ rep \/ new \cap x.col # {}, !.timer = 0] ELSE x IN
  TLCEval([d \in Ds |-> ans(d, data(f[d]))])
\* more than a collector can hold: it may have missed some and given up
Lag(f, fr, stop) == IF Data(fr) > Depth THEN [d \in Ds |-> [f[d] EXCEPT !.odd = @ \/ f[d].open, !.open = @ /\ d \notin stop]] ELSE f
Copies(fr, c) == [i \in 1..(c * Len(fr)) |-> fr[(i + c - 1) \div c]]
Deliver(k, c) ==
  /\ k <= Len(pipe) /\ k > 0 /\ ~closed
  /\ LET fr == Copies(SubSeq(pipe, 1, k), c) IN
     \E stop \in IF Data(fr) > Depth THEN SUBSET Ds ELSE {{}} : Go(Lag(Arrive(disc, fr), fr, stop))
  /\ pipe' = SubSeq(pipe, k + 1, Len(pipe))
  /\ UNCHANGED <<msgs, reqs, closed>>
Lose(k) == k <= Len(pipe) /\ k > 0 /\ pipe' = SubSeq(pipe, k + 1, Len(pipe)) /\ UNCHANGED <<msgs, reqs, disc, closed>>
\* the request could not be handled: an error reply instead
Refuse == /\ reqs # <<>> /\ reqs' = Tail(reqs)
          /\ pipe' = Append(pipe, [m |-> 0, d |-> Head(reqs), e |-> -1])
          /\ UNCHANGED <<msgs, disc, closed>>
\* frames that have nothing to do with it
Noise == UNCHANGED vars
Tick(ms) ==
  /\ Go([d \in Ds |-> IF disc[d].open
                      THEN [disc[d] EXCEPT !.timer = @ + ms, !.open = disc[d].timer + ms < Wait] ELSE disc[d]])
  /\ UNCHANGED <<msgs, reqs, pipe, closed>>
Close ==
  /\ ~closed /\ closed' = TRUE
  /\ Go([d \in Ds |-> IF disc[d].st = "run" THEN [disc[d] EXCEPT !.open = FALSE, !.tot = IF @ = "none" THEN "err" ELSE @] ELSE disc[d]])
  /\ UNCHANGED <<msgs, reqs, pipe>>

\* ------------------------------------------------------------- properties
\* what C13 says: a report is never incomplete
NeverIncomplete == \A d \in Ds : disc[d].res = "ok" => Complete(disc[d]) /\ disc[d].errs = 0
=============================================================================
