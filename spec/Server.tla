------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* The postcard-rpc server: the receive/dispatch loop, the three kinds of  *)
(* handlers (blocking, async, spawned), error replies, fatal and non-fatal *)
(* transport errors, and restarting.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  cfg,     \* [n]: the dispatcher's key length
  run,     \* "on" or "off"
  inq,     \* what the transport will deliver: frames and receive errors
  plan,    \* outcomes of the coming send attempts; once used up, sends succeed
  nospawn, \* how many of the coming spawns fail
  cur,     \* <<>> or <<[f, st, out]>>: the frame being handled, and what it is waiting for
  tasks,   \* sequence of [f, st]: spawned handlers
  pubs,    \* sequence of [sq, sw, v, st]: topic messages the application is sending
  free,    \* bodies of the handlers that may finish
  log,     \* handler invocations, in order
  sent,    \* send attempts, in order: [f, o]
  results  \* what run() returned, in order

vars == <<cfg, run, inq, plan, nospawn, cur, tasks, pubs, free, log, sent, results>>

Bad == 99
Garbage == 0
\* receive errors have negative "keys"
RxClosed == -1   RxTooLarge == -2   RxOther == -3

EpB == 1   EpA == 2   EpS == 3   TpB == 4   TpA == 5   TpS == 6   Ping == 7
Listed == 8      \* an endpoint of the list without a handler
Foreign == 9
IsEp(k) == k \in {EpB, EpA, EpS, Ping}
IsTp(k) == k \in {TpB, TpA, TpS}
RespK(k) == 10 + k
ErrK == 20
OutK == 21
DeserFailed == 102   SerFailed == 103   UnknownKey == 104   FailedToSpawn == 105   KeyTooSmall == 106

Frame(k, w, sq, sw, b) == [k |-> k, w |-> w, sq |-> sq, sw |-> sw, b |-> b]
Answer(k, v) == IF k = Ping THEN v ELSE 10 * v + k
ErrTo(f, e) == Frame(ErrK, cfg.n, f.sq, f.sw, e)
ReplyTo(f)  == Frame(RespK(f.k), cfg.n, f.sq, f.sw, Answer(f.k, f.b))

Init0(c) ==
  /\ cfg = c /\ run = "on" /\ inq = <<>> /\ plan = <<>> /\ nospawn = 0 /\ cur = <<>>
  /\ tasks = <<>> /\ pubs = <<>> /\ free = {} /\ log = <<>> /\ sent = <<>> /\ results = <<>>

-----------------------------------------------------------------------------
E_Rx(f) == inq' = Append(inq, f)
           /\ UNCHANGED <<cfg, run, plan, nospawn, cur, tasks, pubs, free, log, sent, results>>
E_Plan(o) == plan' = Append(plan, o)
           /\ UNCHANGED <<cfg, run, inq, nospawn, cur, tasks, pubs, free, log, sent, results>>
E_NoSpawn == nospawn' = nospawn + 1
           /\ UNCHANGED <<cfg, run, inq, plan, cur, tasks, pubs, free, log, sent, results>>
\* the handler working on the request with body b may finish
E_Free(b) == free' = free \cup {b}
           /\ UNCHANGED <<cfg, run, inq, plan, nospawn, cur, tasks, pubs, log, sent, results>>
E_Pub(sq, sw, v) == pubs' = Append(pubs, [sq |-> sq, sw |-> sw, v |-> v, st |-> "new"])
           /\ UNCHANGED <<cfg, run, inq, plan, nospawn, cur, tasks, free, log, sent, results>>
\* the application runs the server again
E_Run == /\ run = "off" /\ run' = "on"
         /\ UNCHANGED <<cfg, inq, plan, nospawn, cur, tasks, pubs, free, log, sent, results>>
\* the application drops the running server loop
E_Abort == /\ run = "on" /\ run' = "off" /\ cur' = <<>>
           /\ UNCHANGED <<cfg, inq, plan, nospawn, tasks, pubs, free, log, sent, results>>

-----------------------------------------------------------------------------
Outcome == IF plan = <<>> THEN "ok" ELSE Head(plan)
Consume == plan' = IF plan = <<>> THEN plan ELSE Tail(plan)
Attempt(f) == sent' = Append(sent, [f |-> f, o |-> Outcome]) /\ Consume
Called(f) == log' = Append(log, f)
Stop(why) == run' = "off" /\ results' = Append(results, why)

\* what handling of frame f begins with: a stage of "cur"
Begin(f) ==
  IF f.w < cfg.n THEN [st |-> "send", out |-> ErrTo(f, KeyTooSmall), last |-> TRUE]
  ELSE IF ~(IsEp(f.k) \/ IsTp(f.k)) THEN [st |-> "send", out |-> ErrTo(f, UnknownKey), last |-> TRUE]
  ELSE IF f.b = Bad /\ IsEp(f.k) THEN [st |-> "send", out |-> ErrTo(f, DeserFailed), last |-> TRUE]
  ELSE IF f.b = Bad THEN [st |-> "over", out |-> f, last |-> TRUE]
  ELSE IF f.k = Ping THEN [st |-> "send", out |-> ReplyTo(f), last |-> TRUE]
  ELSE [st |-> "call", out |-> f, last |-> FALSE]

I_Recv ==
  /\ run = "on" /\ cur = <<>> /\ inq # <<>>
  /\ inq' = Tail(inq)
  /\ LET f == Head(inq) IN
     IF f.k = RxClosed THEN Stop("rxclosed") /\ UNCHANGED cur
     ELSE /\ UNCHANGED <<run, results>>
          /\ cur' = IF f.k <= 0 THEN <<>> ELSE <<Begin(f) @@ [f |-> f]>>
  /\ UNCHANGED <<cfg, plan, nospawn, tasks, pubs, free, log, sent>>

I_Call ==
  /\ run = "on" /\ cur # <<>> /\ cur[1].st = "call"
  /\ LET f == cur[1].f IN
     IF f.k \in {EpS, TpS}
     THEN IF nospawn > 0
          THEN /\ nospawn' = nospawn - 1 /\ UNCHANGED <<log, tasks>>
               /\ cur' = IF f.k = TpS THEN <<>>
                         ELSE <<[cur[1] EXCEPT !.st = "send", !.out = ErrTo(f, FailedToSpawn), !.last = TRUE]>>
          ELSE tasks' = Append(tasks, [f |-> f, st |-> "new"]) /\ cur' = <<>> /\ UNCHANGED <<log, nospawn>>
     ELSE /\ Called(f) /\ UNCHANGED <<tasks, nospawn>>
          /\ cur' = CASE f.k = TpB -> <<>>
                      [] f.k = EpB -> <<[cur[1] EXCEPT !.st = "send", !.out = ReplyTo(f)]>>
                      [] OTHER -> <<[cur[1] EXCEPT !.st = "wait"]>>
  /\ UNCHANGED <<cfg, run, inq, plan, pubs, free, sent, results>>

\* an async handler finishes
I_Await ==
  /\ run = "on" /\ cur # <<>> /\ cur[1].st = "wait" /\ cur[1].f.b \in free
  /\ cur' = IF cur[1].f.k = TpA THEN <<>>
            ELSE <<[cur[1] EXCEPT !.st = "send", !.out = ReplyTo(cur[1].f)]>>
  /\ UNCHANGED <<cfg, run, inq, plan, nospawn, tasks, pubs, free, log, sent, results>>

\* undecodable topic messages are dropped
I_Over ==
  /\ run = "on" /\ cur # <<>> /\ cur[1].st = "over" /\ cur' = <<>>
  /\ UNCHANGED <<cfg, run, inq, plan, nospawn, tasks, pubs, free, log, sent, results>>

\* A reply that cannot be sent is followed by an error; the outcome of the last send decides.
I_Send ==
  /\ run = "on" /\ cur # <<>> /\ cur[1].st = "send"
  /\ Attempt(cur[1].out)
  /\ IF Outcome # "ok" /\ ~cur[1].last
     THEN /\ cur' = <<[cur[1] EXCEPT !.out = ErrTo(cur[1].f, SerFailed), !.last = TRUE]>>
          /\ UNCHANGED <<run, results>>
     ELSE /\ cur' = <<>>
          /\ IF Outcome \in {"closed", "timeout"} THEN Stop("tx" \o Outcome) ELSE UNCHANGED <<run, results>>
  /\ UNCHANGED <<cfg, inq, nospawn, tasks, pubs, free, log>>

\* spawned handlers live on their own
I_Task(i) ==
  /\ \/ /\ tasks[i].st = "new" /\ Called(tasks[i].f)
        /\ tasks' = [tasks EXCEPT ![i].st = "wait"] /\ UNCHANGED <<sent, plan>>
     \/ /\ tasks[i].st = "wait" /\ tasks[i].f.b \in free
        /\ tasks' = [tasks EXCEPT ![i].st = "done"] /\ UNCHANGED log
        /\ IF tasks[i].f.k = EpS THEN Attempt(ReplyTo(tasks[i].f)) ELSE UNCHANGED <<sent, plan>>
  /\ UNCHANGED <<cfg, run, inq, nospawn, cur, pubs, free, results>>

I_Pub(i) ==
  /\ pubs[i].st = "new" /\ pubs' = [pubs EXCEPT ![i].st = "done"]
  /\ Attempt(Frame(OutK, cfg.n, pubs[i].sq, pubs[i].sw, pubs[i].v))
  /\ UNCHANGED <<cfg, run, inq, nospawn, cur, tasks, free, log, results>>

Internal ==
  \/ I_Recv \/ I_Call \/ I_Await \/ I_Over \/ I_Send
  \/ \E i \in 1..Len(tasks) : I_Task(i)
  \/ \E i \in 1..Len(pubs) : I_Pub(i)

Quiescent ==
  /\ run = "on" => /\ ~(cur = <<>> /\ inq # <<>>)
                   /\ cur # <<>> => cur[1].st = "wait" /\ cur[1].f.b \notin free
  /\ \A i \in 1..Len(tasks) : tasks[i].st = "done" \/ (tasks[i].st = "wait" /\ tasks[i].f.b \notin free)
  /\ \A i \in 1..Len(pubs) : pubs[i].st = "done"

-----------------------------------------------------------------------------
(* Properties (in environments where all bodies and sequence numbers differ). *)
Answers(f) == {n \in 1..Len(sent) : sent[n].f.sq = f.sq /\ sent[n].f.k # OutK}
Accepted(n) == sent[n].o = "ok"

\* C03: nothing is answered twice, nothing is answered unasked, topics are never answered
\* hist: every frame ever delivered, in order (maintained by the bounded environment)
OneAnswer(hist) ==
  \A n \in 1..Len(sent) : sent[n].f.k # OutK =>
    \E m \in 1..Len(hist) : LET f == hist[m] IN
      /\ f.sq = sent[n].f.sq /\ f.sw = sent[n].f.sw /\ sent[n].f.w = cfg.n /\ f.k > 0
      /\ Cardinality({j \in Answers(f) : Accepted(j)}) <= 1
      /\ (IsTp(f.k) /\ f.w >= cfg.n) => FALSE
      /\ (Accepted(n) /\ f.w < cfg.n) => sent[n].f.k = ErrK /\ sent[n].f.b = KeyTooSmall
      /\ (Accepted(n) /\ f.w >= cfg.n /\ ~IsEp(f.k)) => sent[n].f.k = ErrK /\ sent[n].f.b = UnknownKey
      /\ (Accepted(n) /\ f.w >= cfg.n /\ IsEp(f.k) /\ sent[n].f.k # ErrK) =>
            sent[n].f = ReplyTo(f) /\ f.b # Bad
CalledOnce ==
  \A m, n \in 1..Len(log) : m # n => log[m] # log[n]
CalledInOrder(hist) ==
  \A m, n \in 1..Len(log) : (m < n /\ log[m].k \notin {EpS, TpS} /\ log[n].k \notin {EpS, TpS}) =>
     \E x, y \in 1..Len(hist) : hist[x] = log[m] /\ hist[y] = log[n] /\ x < y
\* every request that came through has its answer, when the server has nothing left to do
AllAnswered(hist) ==
  (Quiescent /\ run = "on" /\ cur = <<>> /\ results = <<>> /\ plan = <<>>) =>
    \A m \in 1..Len(hist) : LET f == hist[m] IN
      (f.k > 0 /\ ~(IsTp(f.k) /\ f.w >= cfg.n)) =>
        \/ Cardinality({j \in Answers(f) : Accepted(j)}) = 1
        \/ \E j \in Answers(f) : ~Accepted(j)
        \/ f.k = EpS /\ \E i \in 1..Len(tasks) : tasks[i].f = f /\ tasks[i].st # "done"
\* C04
OnlyFatalStops ==
  [][(Len(results') > Len(results)) =>
       \/ inq # <<>> /\ Head(inq).k = RxClosed /\ results'[Len(results')] = "rxclosed"
       \/ /\ Len(sent') = Len(sent) + 1 /\ sent'[Len(sent')].o \in {"closed", "timeout"}
          /\ results'[Len(results')] = "tx" \o sent'[Len(sent')].o]_vars
FatalStops ==
  [][(run = "on" /\ inq # <<>> /\ Head(inq).k = RxClosed /\ inq' = Tail(inq)) => run' = "off"]_vars
=============================================================================
