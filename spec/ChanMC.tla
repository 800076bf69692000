------------------------------- MODULE ChanMC -------------------------------
(* The channel transport in every environment within the bounds, with what  *)
(* went through it on record.                                               *)
EXTENDS Chan
CONSTANTS Cfgs, Lens, Kinds, MaxOps, MaxPush
VARIABLES got, put, tkn, lost   \* frames received; frames put out; how many were taken; and dropped with the channel
hvars == <<got, put, tkn, lost>>
mvars == <<vars, hvars>>
Init == (\E c \in Cfgs : Init0(c)) /\ got = <<>> /\ put = <<>> /\ tkn = 0 /\ lost = 0
More == Len(ops) < MaxOps
E1_Push == Len(pushed) < MaxPush /\ \E n \in Lens : E_Push(n)
E1_Send == More /\ \E k \in Kinds : E_Send(k)
E1_Recv == More /\ E_Recv
E1_Cancel == \E i \in 1..Len(ops) : E_Cancel(i)
Env == E1_Push \/ E1_Send \/ E1_Recv \/ E1_Cancel \/ E_Take \/ E_DropIn \/ E_DropOut \/ E_Stop
NewOk == { x \in done' \ done : x.r = "ok" /\ ops[x.i].t = "recv" }
Hist ==
  /\ got' = IF inq' # inq /\ Len(inq') < Len(inq) /\ Fits THEN Append(got, Head(inq)) ELSE got
  /\ put' = IF Len(outq') > Len(outq) THEN Append(put, outq'[Len(outq')]) ELSE put
  /\ tkn' = IF outOpen' /\ Len(outq') < Len(outq) THEN tkn + 1 ELSE tkn
  /\ lost' = IF outOpen /\ ~outOpen' THEN Len(outq) ELSE lost
Next == (Env \/ Internal) /\ Hist
MSpec == Init /\ [][Next]_mvars /\ WF_mvars(Internal /\ Hist)
-----------------------------------------------------------------------------
Fitting(n) == SelectSeq([i \in 1..n |-> i], LAMBDA i : pushed[i] <= cfg.buf)
\* received: exactly the frames that fit, in order
ReceivedInOrder == got = Fitting(Len(pushed) - Len(inq))
\* what was reported as sent went out, once, in the order of the operations' places
SentOnce == /\ Wire => { x.i : x \in { y \in done : y.r = "ok" /\ ops[y.i].t = "send" } } = { put[i] : i \in 1..Len(put) }
            /\ \A i, j \in 1..Len(put) : put[i] = put[j] => i = j
            /\ Len(put) = tkn + lost + Len(outq)
Bounded == Len(outq) <= cfg.cap
\* a reply for every request taken, in their order, but the one the server ended with
Replies == cfg.mode = "server" =>
   put = IF srv[1] = "reply" \/ srv = <<"end", "tx">> THEN SubSeq(got, 1, Len(got) - 1) ELSE got
\* nothing ends without a cause, and with one everything ends
ClosedForACause ==
  /\ \A x \in done : x.r = "closed" => (stopped \/ ~inOpen \/ ~outOpen)
  /\ srv[1] = "end" => (stopped \/ ~inOpen \/ ~outOpen)
StopEndsAll == (stopped /\ cfg.st = "both") ~> (Open("recv") = {} /\ Open("send") = {} /\ srv[1] \in {"none", "end"})
EndIsFinal == [][srv[1] = "end" => srv' = srv /\ (Len(outq') <= Len(outq))]_mvars
=============================================================================
