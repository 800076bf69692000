-------------------------------- MODULE Chan --------------------------------
(***************************************************************************)
(* The in-process channel transport of the server, with its stopper, used  *)
(* bare ("wire": receives and sends as operations) or under a running      *)
(* server that answers pings ("server").                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,     \* [mode, cap: room in the outgoing channel, buf: receive buffer, st: who listens to the stopper]
  pushed,  \* lengths of the frames put into the incoming channel, ever
  inq,     \* those not yet received (indices into pushed)
  inOpen,  \* does their sender still exist?
  outq,    \* frames in the outgoing channel: what they are
  outOpen, \* does their receiver still exist?
  stopped,
  ops,     \* receives and sends: [t, k, st]
  waiting, \* unfinished sends, first come first served
  done,    \* results: [i, r, f]
  srv      \* the server: <<"recv">>, <<"reply", f>>, <<"end", r>>; <<"none">> in mode wire
vars == <<cfg, pushed, inq, inOpen, outq, outOpen, stopped, ops, waiting, done, srv>>
Init0(c) ==
  /\ cfg = c /\ pushed = <<>> /\ inq = <<>> /\ inOpen = TRUE /\ outq = <<>> /\ outOpen = TRUE /\ stopped = FALSE
  /\ ops = <<>> /\ waiting = <<>> /\ done = {}
  /\ srv = IF c.mode = "server" THEN <<"recv">> ELSE <<"none">>
Open(t) == { i \in 1..Len(ops) : ops[i].t = t /\ ops[i].st = "open" }
RxStop == stopped /\ cfg.st \in {"rx", "both"}
TxStop == stopped /\ cfg.st \in {"tx", "both"}
Wire == cfg.mode = "wire"
-----------------------------------------------------------------------------
(* the environment *)
E_Push(n) == /\ inOpen /\ pushed' = Append(pushed, n) /\ inq' = Append(inq, Len(pushed) + 1)
             /\ UNCHANGED <<cfg, inOpen, outq, outOpen, stopped, ops, waiting, done, srv>>
E_DropIn == /\ inOpen /\ inOpen' = FALSE
            /\ UNCHANGED <<cfg, pushed, inq, outq, outOpen, stopped, ops, waiting, done, srv>>
E_Take == /\ outOpen /\ outq' = (IF outq = <<>> THEN <<>> ELSE Tail(outq))
          /\ UNCHANGED <<cfg, pushed, inq, inOpen, outOpen, stopped, ops, waiting, done, srv>>
Taken == IF outq = <<>> THEN 0 ELSE Head(outq)
E_DropOut == /\ outOpen /\ outOpen' = FALSE /\ outq' = <<>>
             /\ UNCHANGED <<cfg, pushed, inq, inOpen, stopped, ops, waiting, done, srv>>
E_Stop == /\ cfg.st # "none" /\ ~stopped /\ stopped' = TRUE
          /\ UNCHANGED <<cfg, pushed, inq, inOpen, outq, outOpen, ops, waiting, done, srv>>
E_Recv == /\ Wire /\ Open("recv") = {}
          /\ ops' = Append(ops, [t |-> "recv", k |-> "recv", st |-> "open"])
          /\ UNCHANGED <<cfg, pushed, inq, inOpen, outq, outOpen, stopped, waiting, done, srv>>
E_Send(k) == /\ Wire
             /\ ops' = Append(ops, [t |-> "send", k |-> k, st |-> "open"])
             /\ waiting' = Append(waiting, Len(ops) + 1)
             /\ UNCHANGED <<cfg, pushed, inq, inOpen, outq, outOpen, stopped, done, srv>>
E_Cancel(i) == /\ i \in 1..Len(ops) /\ ops[i].st = "open"
               /\ ops' = [ops EXCEPT ![i].st = "gone"]
               /\ waiting' = SelectSeq(waiting, LAMBDA x : x # i)
               /\ UNCHANGED <<cfg, pushed, inq, inOpen, outq, outOpen, stopped, done, srv>>
-----------------------------------------------------------------------------
Finish(i, r, f) == ops' = [ops EXCEPT ![i].st = "done"] /\ done' = done \union {[i |-> i, r |-> r, f |-> f]}
Fits == pushed[Head(inq)] <= cfg.buf
\* a receive takes the oldest frame, whole; if it does not fit, it is lost
I_Recv(i) ==
  /\ ops[i].t = "recv" /\ ops[i].st = "open"
  /\ UNCHANGED <<cfg, pushed, inOpen, outq, outOpen, stopped, waiting, srv>>
  /\ \/ /\ inq # <<>> /\ inq' = Tail(inq)
        /\ IF Fits THEN Finish(i, "ok", Head(inq)) ELSE Finish(i, "large", 0)
     \/ ((inq = <<>> /\ ~inOpen) \/ RxStop) /\ Finish(i, "closed", 0) /\ UNCHANGED inq
\* the first waiting send takes the next free place
I_Send ==
  /\ waiting # <<>> /\ outOpen /\ Len(outq) < cfg.cap
  /\ outq' = Append(outq, Head(waiting)) /\ waiting' = Tail(waiting) /\ Finish(Head(waiting), "ok", 0)
  /\ UNCHANGED <<cfg, pushed, inq, inOpen, outOpen, stopped, srv>>
I_SendEnd(i) ==
  /\ ops[i].t = "send" /\ ops[i].st = "open" /\ (~outOpen \/ TxStop)
  /\ waiting' = SelectSeq(waiting, LAMBDA x : x # i) /\ Finish(i, "closed", 0)
  /\ UNCHANGED <<cfg, pushed, inq, inOpen, outq, outOpen, stopped, srv>>
(* the server: one request at a time, frames that are too large are dropped *)
S_Recv ==
  /\ srv = <<"recv">> /\ inq # <<>> /\ inq' = Tail(inq)
  /\ srv' = IF Fits THEN <<"reply", Head(inq)>> ELSE srv
  /\ UNCHANGED <<cfg, pushed, inOpen, outq, outOpen, stopped, ops, waiting, done>>
S_Reply ==
  /\ srv[1] = "reply" /\ outOpen /\ Len(outq) < cfg.cap
  /\ outq' = Append(outq, srv[2]) /\ srv' = <<"recv">>
  /\ UNCHANGED <<cfg, pushed, inq, inOpen, outOpen, stopped, ops, waiting, done>>
S_End ==
  /\ \/ /\ srv = <<"recv">> /\ ((inq = <<>> /\ ~inOpen) \/ RxStop) /\ srv' = <<"end", "rx">>
     \/ /\ srv[1] = "reply" /\ (~outOpen \/ TxStop) /\ srv' = <<"end", "tx">>
  /\ UNCHANGED <<cfg, pushed, inq, inOpen, outq, outOpen, stopped, ops, waiting, done>>
Internal == \/ \E i \in Open("recv") : I_Recv(i)
            \/ I_Send
            \/ \E i \in Open("send") : I_SendEnd(i)
            \/ S_Recv \/ S_Reply \/ S_End
Quiescent ==
  /\ Open("recv") # {} => (inq = <<>> /\ inOpen /\ ~RxStop)
  /\ Open("send") # {} => (outOpen /\ Len(outq) = cfg.cap /\ ~TxStop)
  /\ srv = <<"recv">> => (inq = <<>> /\ inOpen /\ ~RxStop)
  /\ srv[1] = "reply" => (outOpen /\ Len(outq) = cfg.cap /\ ~TxStop)
=============================================================================
