-------------------------------- MODULE Rpc ---------------------------------
(***************************************************************************)
(* A client and a server joined by a link of bounded queues which delivers *)
(* in order and loses nothing: calls and topic messages of several tasks,  *)
(* the client's outgoing queue, the link (each direction has a gate that   *)
(* can be shut), the server loop, handlers of all kinds, replies and       *)
(* messages published by the server.                                       *)
(*                                                                         *)
(* An operation is identified by its index; its argument is that index.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Prio    \* 0: all orders of steps; 1: only one order of steps that commute; 2: also of replies there is room for
VARIABLES
  cfg,    \* [depth, up, down: capacities; sw: sequence number width; n: key length]
  run,    \* "on", "off" (the server was stopped), "end" (and everything noticed it)
  ops,    \* [k: kind, st: state, r: result, v: value, sq]
  nseq,
  sendq, outq, wire,      \* in the client: waiting, queued, being sent
  up1, ups, up2, gu,      \* the link to the server, and its gate
  dn1, dns, dn2, gd,      \* the link to the client
  cur,    \* <<>> or <<[i, st]>>: what the server loop is doing
  tasks,  \* set of [i, st]: spawned handlers
  free,   \* operations whose handler may finish
  spn, sps,   \* messages the server's application published: all, and those sent
  ilog,   \* calls of blocking and async handlers, in order: [k, v, sq]
  slog,   \* calls of spawned handlers (no order among them)
  got     \* what the client's subscriber received
vars == <<cfg, run, ops, nseq, sendq, outq, wire, up1, ups, up2, gu, dn1, dns, dn2, gd, cur, tasks, free, spn, sps, ilog, slog, got>>

EpB == 1  EpA == 2  EpS == 3  TpB == 4  TpA == 5  TpS == 6  Ping == 7  Foreign == 9
IsCall(k) == k \in {EpB, EpA, EpS, Ping, Foreign}
Mod(sw) == CASE sw = 1 -> 256 [] sw = 2 -> 65536 [] OTHER -> 2147483647
Answer(i) == CASE ops[i].k = Ping -> i [] ops[i].k = Foreign -> 104 [] OTHER -> (10 * i) + ops[i].k
Kind(i) == IF ops[i].k = Foreign THEN "wire" ELSE "ok"
Over(i) == ops[i].st \in {"done", "gone"}

Init0(c) ==
  /\ cfg = c /\ run = "on" /\ ops = <<>> /\ nseq = 0 /\ sendq = <<>> /\ outq = <<>> /\ wire = <<>>
  /\ up1 = <<>> /\ ups = <<>> /\ up2 = <<>> /\ gu = TRUE /\ dn1 = <<>> /\ dns = <<>> /\ dn2 = <<>> /\ gd = TRUE
  /\ cur = <<>> /\ tasks = {} /\ free = {} /\ spn = 0 /\ sps = 0 /\ ilog = <<>> /\ slog = {} /\ got = <<>>

Client == <<nseq, sendq, outq, wire>>
Link == <<up1, ups, up2, dn1, dns, dn2>>
Srv == <<cur, tasks, sps, ilog, slog>>
-----------------------------------------------------------------------------
E_Op(k) ==
  /\ ops' = Append(ops, [k |-> k, st |-> "new", r |-> "", v |-> 0, sq |-> 0])
  /\ UNCHANGED <<cfg, run, Client, Link, gu, gd, Srv, free, spn, got>>
E_SPub == run = "on" /\ spn' = spn + 1 /\ UNCHANGED <<cfg, run, ops, Client, Link, gu, gd, Srv, free, got>>
E_Free(i) == free' = free \cup {i} /\ UNCHANGED <<cfg, run, ops, Client, Link, gu, gd, Srv, spn, got>>
E_Gate(d, b) ==
  /\ run = "on"
  /\ gu' = (IF d = "up" THEN b ELSE gu) /\ gd' = (IF d = "down" THEN b ELSE gd)
  /\ UNCHANGED <<cfg, run, ops, Client, Link, Srv, free, spn, got>>
E_Cancel(i) ==
  /\ ops' = IF Over(i) THEN ops ELSE [ops EXCEPT ![i].st = "gone"]
  /\ sendq' = SelectSeq(sendq, LAMBDA j : j # i)
  /\ UNCHANGED <<cfg, run, nseq, outq, wire, Link, gu, gd, Srv, free, spn, got>>
\* the server is told to stop; gates are open and handlers may finish
E_Stop ==
  /\ run = "on" /\ run' = "off" /\ gu' = TRUE /\ gd' = TRUE /\ free' = 1..Len(ops)
  /\ UNCHANGED <<cfg, ops, Client, Link, Srv, spn, got>>
-----------------------------------------------------------------------------
Rest == UNCHANGED <<cfg, run, gu, gd, free, spn>>
Finish(i, r, v) == ops' = [ops EXCEPT ![i].st = "done", ![i].r = r, ![i].v = v]
\* an operation begins: it gets its number and joins the queue for the queue
I_Start(i) ==
  /\ ops[i].st = "new"
  /\ IF run = "end" THEN Finish(i, "closed", 0) /\ UNCHANGED <<nseq, sendq>>
     ELSE /\ sendq' = Append(sendq, i)
          /\ IF IsCall(ops[i].k) THEN ops' = [ops EXCEPT ![i].st = "want", ![i].sq = nseq] /\ nseq' = (nseq + 1) % Mod(cfg.sw)
             ELSE ops' = [ops EXCEPT ![i].st = "want", ![i].sq = i] /\ nseq' = nseq
  /\ UNCHANGED <<outq, wire, Link, Srv, got>> /\ Rest
Accept ==
  /\ sendq # <<>> /\ Len(outq) < cfg.depth
  /\ outq' = Append(outq, Head(sendq)) /\ sendq' = Tail(sendq)
  /\ LET i == Head(sendq) IN IF IsCall(ops[i].k) THEN ops' = [ops EXCEPT ![i].st = "out"] ELSE Finish(i, "ok", 0)
  /\ UNCHANGED <<nseq, wire, Link, Srv, got>> /\ Rest
Take ==
  /\ wire = <<>> /\ outq # <<>> /\ wire' = <<Head(outq)>> /\ outq' = Tail(outq)
  /\ UNCHANGED <<ops, nseq, sendq, Link, Srv, got>> /\ Rest
Push ==
  /\ wire # <<>> /\ Len(up1) < cfg.up /\ up1' = up1 \o wire /\ wire' = <<>>
  /\ UNCHANGED <<ops, nseq, sendq, outq, ups, up2, dn1, dns, dn2, Srv, got>> /\ Rest
PumpU ==
  /\ gu /\ ups = <<>> /\ up1 # <<>> /\ ups' = <<Head(up1)>> /\ up1' = Tail(up1)
  /\ UNCHANGED <<ops, Client, up2, dn1, dns, dn2, Srv, got>> /\ Rest
PumpU2 ==
  /\ ups # <<>> /\ Len(up2) < cfg.up /\ up2' = up2 \o ups /\ ups' = <<>>
  /\ UNCHANGED <<ops, Client, up1, dn1, dns, dn2, Srv, got>> /\ Rest
PumpD ==
  /\ gd /\ dns = <<>> /\ dn1 # <<>> /\ dns' = <<Head(dn1)>> /\ dn1' = Tail(dn1)
  /\ UNCHANGED <<ops, Client, up1, ups, up2, dn2, Srv, got>> /\ Rest
PumpD2 ==
  /\ dns # <<>> /\ Len(dn2) < cfg.down /\ dn2' = dn2 \o dns /\ dns' = <<>>
  /\ UNCHANGED <<ops, Client, up1, ups, up2, dn1, Srv, got>> /\ Rest
Lost == 1000000  \* added to the operation: its reply could not be sent, an error reply could
\* the client receives a reply (positive) or a message (negative)
Deliver ==
  /\ dn2 # <<>> /\ dn2' = Tail(dn2)
  /\ LET i == Head(dn2) IN
     IF i < 0 THEN got' = Append(got, -i) /\ ops' = ops
     ELSE IF i > Lost
     THEN /\ got' = got
          /\ \/ IF ops[i - Lost].st = "out" THEN Finish(i - Lost, "wire", 103) ELSE ops' = ops
             \/ run = "off" /\ ops' = ops
     ELSE /\ got' = got
          /\ \/ IF ops[i].st = "out" THEN Finish(i, Kind(i), Answer(i)) ELSE ops' = ops
             \/ run = "off" /\ ops' = ops   \* its caller notices the end first
  /\ UNCHANGED <<Client, up1, ups, up2, dn1, dns, Srv>> /\ Rest
Called(i) == [k |-> ops[i].k, v |-> i, sq |-> ops[i].sq]
Recv ==
  /\ cur = <<>> /\ up2 # <<>> /\ run # "end" /\ up2' = Tail(up2)
  /\ LET i == Head(up2)  k == ops[i].k IN
     /\ ilog' = IF k \in {EpB, EpA, TpB, TpA} THEN Append(ilog, Called(i)) ELSE ilog
     /\ tasks' = IF k \in {EpS, TpS} THEN tasks \cup {[i |-> i, st |-> "new"]} ELSE tasks
     /\ cur' = CASE k \in {EpB, Ping, Foreign} -> <<[i |-> i, st |-> "reply"]>>
                 [] k \in {EpA, TpA} -> <<[i |-> i, st |-> "hold"]>>
                 [] OTHER -> <<>>
  /\ UNCHANGED <<ops, Client, up1, ups, dn1, dns, dn2, sps, slog, got>> /\ Rest
Freed ==
  /\ cur # <<>> /\ cur[1].st = "hold" /\ cur[1].i \in free
  /\ cur' = IF IsCall(ops[cur[1].i].k) THEN <<[cur[1] EXCEPT !.st = "reply"]>> ELSE <<>>
  /\ UNCHANGED <<ops, Client, Link, tasks, sps, ilog, slog, got>> /\ Rest
TaskRun == \E t \in tasks :
  /\ t.st = "new"
  /\ tasks' = (tasks \ {t}) \cup {[t EXCEPT !.st = "hold"]} /\ slog' = slog \cup {Called(t.i)}
  /\ UNCHANGED <<ops, Client, Link, cur, sps, ilog, got>> /\ Rest
TaskFreed == \E t \in tasks :
  /\ t.st = "hold" /\ t.i \in free
  /\ tasks' = (tasks \ {t}) \cup (IF IsCall(ops[t.i].k) THEN {[t EXCEPT !.st = "reply"]} ELSE {})
  /\ UNCHANGED <<ops, Client, Link, cur, sps, ilog, slog, got>> /\ Rest
\* sends of the server: whoever comes first; once stopped, they may fail
Room == Len(dn1) < cfg.down
Put(x) == \/ Room /\ dn1' = Append(dn1, x)
          \/ run = "off" /\ dn1' = dn1
I_Reply ==
  /\ cur # <<>> /\ cur[1].st = "reply" /\ (Put(cur[1].i) \/ (run = "off" /\ Room /\ dn1' = Append(dn1, Lost + cur[1].i))) /\ cur' = <<>>
  /\ UNCHANGED <<ops, Client, up1, ups, up2, dns, dn2, tasks, sps, ilog, slog, got>> /\ Rest
I_TaskReply == \E t \in tasks :
  /\ t.st = "reply" /\ Put(t.i) /\ tasks' = tasks \ {t}
  /\ UNCHANGED <<ops, Client, up1, ups, up2, dns, dn2, cur, sps, ilog, slog, got>> /\ Rest
I_SPub ==
  /\ sps < spn /\ Put(-(sps + 1)) /\ sps' = sps + 1
  /\ UNCHANGED <<ops, Client, up1, ups, up2, dns, dn2, cur, tasks, ilog, slog, got>> /\ Rest
\* everybody has noticed that the server is gone
I_Off ==
  /\ run = "off" /\ \A t \in tasks : t.st = "reply"
  /\ run' = "end" /\ ops' = [i \in 1..Len(ops) |-> IF Over(i) THEN ops[i] ELSE [ops[i] EXCEPT !.st = "done", !.r = "closed"]]
  /\ sendq' = <<>> /\ outq' = <<>> /\ wire' = <<>> /\ up1' = <<>> /\ ups' = <<>> /\ up2' = <<>>
  /\ dn1' = <<>> /\ dns' = <<>> /\ dn2' = <<>> /\ cur' = <<>> /\ tasks' = {} /\ sps' = spn
  /\ UNCHANGED <<cfg, nseq, gu, gd, free, spn, ilog, slog, got>>

Pipe == Accept \/ Take \/ Push \/ PumpU \/ PumpU2 \/ PumpD \/ PumpD2 \/ Deliver \/ Recv \/ Freed \/ TaskRun \/ TaskFreed
Choice == (\E i \in 1..Len(ops) : I_Start(i)) \/ I_Reply \/ I_TaskReply \/ I_SPub \/ I_Off
Wanters == Len(SelectSeq(cur, LAMBDA c : c.st = "reply")) + Cardinality({t \in tasks : t.st = "reply"}) + (spn - sps)
OneReply == IF ENABLED I_Reply THEN I_Reply ELSE IF ENABLED I_SPub THEN I_SPub
  ELSE \E t \in tasks : /\ t.st = "reply" /\ (\A u \in tasks : u.st = "reply" => u.i >= t.i)
         /\ Put(t.i) /\ tasks' = tasks \ {t}
         /\ UNCHANGED <<ops, Client, up1, ups, up2, dns, dn2, cur, sps, ilog, slog, got>> /\ Rest
First == CASE ENABLED Deliver -> Deliver [] ENABLED PumpD2 -> PumpD2 [] ENABLED PumpD -> PumpD
  [] ENABLED Freed -> Freed [] ENABLED TaskRun -> TaskRun [] ENABLED TaskFreed -> TaskFreed [] ENABLED Recv -> Recv
  [] ENABLED PumpU2 -> PumpU2 [] ENABLED PumpU -> PumpU [] ENABLED Push -> Push [] ENABLED Take -> Take
  [] ENABLED Accept -> Accept [] OTHER -> IF Prio > 1 /\ Wanters > 0 /\ (gd \/ Wanters + Len(dn1) <= cfg.down) THEN OneReply ELSE Choice
Internal == IF Prio > 0 /\ run = "on" THEN First ELSE Pipe \/ Choice
PipeIdle ==
  /\ (sendq = <<>> \/ Len(outq) >= cfg.depth) /\ (wire # <<>> \/ outq = <<>>) /\ (wire = <<>> \/ Len(up1) >= cfg.up)
  /\ (~gu \/ ups # <<>> \/ up1 = <<>>) /\ (ups = <<>> \/ Len(up2) >= cfg.up)
  /\ (~gd \/ dns # <<>> \/ dn1 = <<>>) /\ (dns = <<>> \/ Len(dn2) >= cfg.down) /\ dn2 = <<>>
  /\ (cur # <<>> \/ up2 = <<>>) /\ (cur = <<>> \/ cur[1].st # "hold" \/ cur[1].i \notin free)
  /\ \A t \in tasks : t.st = "reply" \/ (t.st = "hold" /\ t.i \notin free)
Quiescent ==
  /\ \A i \in 1..Len(ops) : ops[i].st # "new"
  /\ \/ run = "end"
     \/ /\ run = "on" /\ PipeIdle
  /\ (cur = <<>> \/ cur[1].st # "reply" \/ ~Room) /\ (\A t \in tasks : t.st # "reply" \/ ~Room) /\ (sps = spn \/ ~Room)
=============================================================================
