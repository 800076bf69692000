------------------------------- MODULE RpcMC --------------------------------
EXTENDS Rpc
CONSTANTS Cfgs, Kinds, MaxOps, MaxSPub, MaxGate, MaxCancel, Stops
VARIABLE b   \* budget: [gate, cancel]
mvars == <<vars, b>>
Init == (\E c \in Cfgs : Init0(c)) /\ b = [gate |-> 0, cancel |-> 0]
Same == b' = b
E1_Op == Len(ops) < MaxOps /\ run = "on" /\ (\E k \in Kinds : E_Op(k)) /\ Same
E1_SPub == spn < MaxSPub /\ E_SPub /\ Same
Holding == {cur[j].i : j \in 1..Len(cur)} \cup {t.i : t \in tasks}
E1_Free == (\E i \in Holding \ free : E_Free(i)) /\ Same
E1_Gate == b.gate < MaxGate /\ (\E d \in {"up", "down"} : E_Gate(d, IF d = "up" THEN ~gu ELSE ~gd)) /\ b' = [b EXCEPT !.gate = @ + 1]
E1_Cancel == b.cancel < MaxCancel /\ (\E i \in 1..Len(ops) : ~Over(i) /\ E_Cancel(i)) /\ b' = [b EXCEPT !.cancel = @ + 1]
E1_Stop == Stops /\ E_Stop /\ Same
Env == E1_Op \/ E1_SPub \/ E1_Free \/ E1_Gate \/ E1_Cancel \/ E1_Stop
Next == Env \/ (Internal /\ Same)
Spec == Init /\ [][Next]_mvars
Fair == Spec /\ WF_mvars(Internal /\ Same) /\ WF_mvars(E1_Free)
-----------------------------------------------------------------------------
Ids == 1..Len(ops)
Handled(i) == Called(i) \in {ilog[j] : j \in 1..Len(ilog)} \cup slog
\* a call that finished finished with its own handler's answer
RightAnswers == \A i \in Ids : ~(run # "on" /\ ops[i].v = 103) /\ ops[i].st = "done" /\ ops[i].r # "closed" /\ IsCall(ops[i].k) =>
  /\ ops[i].v = Answer(i) /\ ops[i].r = Kind(i)
  /\ ops[i].k \in {EpB, EpA, EpS} => Handled(i)
CalledOnce == \A j, m \in 1..Len(ilog) : ilog[j].v = ilog[m].v => j = m
\* frames are neither lost nor doubled on the way
RECURSIVE Count(_, _)
Count(s, x) == IF s = <<>> THEN 0 ELSE (IF Head(s) = x THEN 1 ELSE 0) + Count(Tail(s), x)
Where(i) == Count(sendq \o outq \o wire \o up1 \o ups \o up2 \o dn1 \o dns \o dn2, i)
  + Cardinality({t \in tasks : t.i = i}) + Len(SelectSeq(cur, LAMBDA c : c.i = i))
OnePlace == run = "on" => \A i \in Ids :
  CASE ops[i].st = "new" -> Where(i) = 0
    [] ops[i].st \in {"want", "out"} -> Where(i) = 1
    [] ops[i].st = "done" /\ IsCall(ops[i].k) -> Where(i) = 0
    [] OTHER -> Where(i) <= 1
\* when nothing moves although gates are open and handlers may finish, everything is done
Drains == (Quiescent /\ gu /\ gd /\ Holding \subseteq free) =>
  /\ \A i \in Ids : Over(i) /\ (run = "on" /\ ops[i].st = "done" /\ ops[i].k \in {EpB, EpA, EpS, TpB, TpA, TpS} => Handled(i))
  /\ run = "on" => got = [j \in 1..spn |-> j]
InOrder == got = SubSeq([j \in 1..spn |-> j], 1, Len(got)) \/ run # "on"
QuiescentIsRight == Quiescent <=> ~ENABLED Internal
DoneOrNot(i) == IF i > Len(ops) THEN FALSE ELSE Over(i)
Finishes == \A i \in 1..MaxOps : (i <= Len(ops)) ~> (DoneOrNot(i) \/ ~gu \/ ~gd)
-----------------------------------------------------------------------------
(* Rpc implements RpcAbs: who looks only at what users see cannot tell them apart.  *)
AOpen == {[i |-> i, k |-> ops[i].k, sq |-> IF Handled(i) THEN ops[i].sq ELSE -1,
           st |-> IF Handled(i) THEN "called" ELSE "issued"] : i \in {j \in Ids : IsCall(ops[j].k) /\ ops[j].st # "done"}}
PubIds == SelectSeq([j \in Ids |-> j], LAMBDA i : ~IsCall(ops[i].k) /\ ~Handled(i))
APubs == [j \in 1..Len(PubIds) |-> [i |-> PubIds[j], k |-> ops[PubIds[j]].k, by |-> PubIds[j]]]
ASpubs == [j \in 1..(spn - Len(got)) |-> Len(got) + j]
Abs == INSTANCE RpcAbs WITH open <- AOpen, last <- Len(ops), pubs <- APubs, spubs <- ASpubs, spn <- spn
AbsNext ==
  \/ \E k \in Kinds : Abs!A_Issue(Len(ops) + 1, k, Len(ops) + 1)
  \/ \E i \in Ids : Abs!A_Call(i, ops[i].k, ops[i].sq)
  \/ \E i \in Ids : Abs!A_Done(i, ops'[i].r, ops'[i].v)
  \/ Abs!A_SPub(spn + 1) \/ (got # got' /\ Abs!A_SGot(got'[Len(got')]))
Refines == [][AbsNext]_<<AOpen, APubs, ASpubs>>
=============================================================================
