------------------------------- MODULE RpcAbs -------------------------------
(***************************************************************************)
(* What users see of a client and a server joined by a perfect link,       *)
(* whatever is between them: an operation is issued, its handler is called *)
(* (once), and the caller gets that handler's answer.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  open,    \* issued, not yet finished: [i, k, by, sq, st: "issued" or "called"]
  last,    \* operation each task issued last
  pubs,    \* topic messages: accepted or about to be, not yet handled, in order of issue
  spubs,   \* messages published by the server and not yet received by the client
  spn
avars == <<open, last, pubs, spubs, spn>>
EpB == 1  EpA == 2  EpS == 3  TpB == 4  TpA == 5  TpS == 6  Ping == 7  Foreign == 9
IsCall(k) == k \in {EpB, EpA, EpS, Ping, Foreign}
Inline(k) == k \in {EpB, EpA, TpB, TpA}
Ans(i, k) == CASE k = Ping -> i [] k = Foreign -> 104 [] OTHER -> (10 * i) + k

AInit == open = {} /\ last = 0 /\ pubs = <<>> /\ spubs = <<>> /\ spn = 0
A_Issue(i, k, by) ==
  /\ last' = last + 1
  /\ IF IsCall(k) THEN open' = open \cup {[i |-> i, k |-> k, sq |-> -1, st |-> "issued"]} /\ pubs' = pubs
     ELSE open' = open /\ pubs' = Append(pubs, [i |-> i, k |-> k, by |-> by])
  /\ UNCHANGED <<spubs, spn>>
Numbers == {o.sq : o \in {p \in open : p.st = "called"}}
\* a handler is called with operation i's argument
A_Call(i, k, sq) ==
  IF IsCall(k)
  THEN \E o \in open :
         /\ o.i = i /\ o.k = k /\ o.st = "issued" /\ sq \notin Numbers
         /\ open' = (open \ {o}) \cup {[o EXCEPT !.st = "called", !.sq = sq]} /\ UNCHANGED <<last, pubs, spubs, spn>>
  ELSE \E j \in 1..Len(pubs) :
         /\ pubs[j].i = i /\ pubs[j].k = k
         \* messages of one publisher are handled in order (spawned handlers run when they please)
         /\ (Inline(k) => \A m \in 1..(j - 1) : ~(Inline(pubs[m].k) /\ pubs[m].by = pubs[j].by)) = TRUE
         /\ pubs' = SubSeq(pubs, 1, j - 1) \o SubSeq(pubs, j + 1, Len(pubs)) /\ UNCHANGED <<open, last, spubs, spn>>
A_Done(i, r, v) ==
  \E o \in open :
    /\ o.i = i /\ o.st = (IF o.k \in {Ping, Foreign} THEN "issued" ELSE "called")
    /\ r = (IF o.k = Foreign THEN "wire" ELSE "ok") /\ v = Ans(i, o.k)
    /\ open' = open \ {o} /\ UNCHANGED <<last, pubs, spubs, spn>>
A_SPub(j) == spn' = spn + 1 /\ j = spn' /\ spubs' = Append(spubs, j) /\ UNCHANGED <<open, last, pubs>>
A_SGot(j) == spubs # <<>> /\ j = Head(spubs) /\ spubs' = Tail(spubs) /\ UNCHANGED <<open, last, pubs, spn>>
\* everything that was begun has come to its end
Settled == open = {} /\ pubs = <<>> /\ spubs = <<>>
=============================================================================
