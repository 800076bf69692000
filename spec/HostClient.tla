----------------------------- MODULE HostClient -----------------------------
(***************************************************************************)
(* The postcard-rpc host client: user operations, the outgoing queue and   *)
(* its worker, the receive worker with its response matching and its       *)
(* subscriptions, and the shared stop signal.                              *)
(*                                                                         *)
(* Actions E_* are taken by the environment (user code and transport);     *)
(* actions I_* are steps of the client itself.  The client is quiescent    *)
(* when no urgent I_* step is enabled.  Nothing here depends on the order   *)
(* in which the runtime polls tasks: the I_* steps interleave freely.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  cfg,      \* [depth, tmo, sw, auto, unit, bcap]: queue depth, wait-if-full in ticks, seq width, transport mode,
            \* tick length, capacity of broadcast channels (times the topic)
  handles,  \* number of client handles the user holds
  ops,      \* sequence of operation records; an operation's id is its index
  kk,       \* key length in use for new frames
  nseq,     \* next automatic sequence number
  sendq,    \* operations waiting for a slot in the outgoing queue (FIFO)
  outq,     \* accepted frames
  wire,     \* <<>> or <<frame>>: the frame the transport is sending
  txbad,    \* the transport's next/current send fails
  sent,     \* history: every frame handed to the transport
  inq,      \* inbound frames not yet taken by the receive worker
  held,     \* <<>> or <<[f, s, left]>>: message waiting for room in a full queue
  subs,     \* [id -> subscription]; the id is that of the subscribe operation
  own,      \* [Topics -> subscription id or 0]: exclusive owner
  chan,     \* [Topics -> channel id or 0]: broadcast channel
  chans,    \* sequence of broadcast channels [t, cap, log, open]
  closed, inDone, outDone,
  proc      \* history: frames processed by the receive worker, in order

vars == <<cfg, handles, ops, kk, nseq, sendq, outq, wire, txbad, sent, inq, held,
          subs, own, chan, chans, closed, inDone, outDone, proc>>

Topics == 1..2
Endpoints == 1..2
Widths == {1, 2, 4, 8}
Bad == 99                       \* an undecodable body
Garbage == 0                    \* "key" of a frame without a well-formed header
RxErr == -1                     \* "key" of a transport receive error

\* Abstract keys.  All are distinct at every width (the harness asserts it).
ReqK(e)  == 2 * e - 1
RespK(e) == 2 * e
ErrK     == 5
TopK(t)  == 5 + t
ForeignK == 8

Frame(k, w, sq, sw, b) == [k |-> k, w |-> w, sq |-> sq, sw |-> sw, b |-> b]
Min(a, b) == IF a < b THEN a ELSE b

SeqMod(sw) == CASE sw = 1 -> 256 [] sw = 2 -> 65536 [] OTHER -> 2147483647

Live(op) == op.st \notin {"done", "gone"}
HoldsHandle(op) == op.t # "recv"
\* a response and/or an error for the call has been received
Answered(i) == ops[i].gok # <<>> \/ ops[i].gerr # <<>>
CallsInFlight == {i \in 1..Len(ops) : ops[i].t = "call" /\ ops[i].st \in {"blk", "out"}}

NoRes == [r |-> "none", v |-> 0]
Res(r, v) == [r |-> r, v |-> v]
Finish(i, res) == ops' = [ops EXCEPT ![i].st = "done", ![i].res = res]

Init0(c) ==
  /\ cfg = c
  /\ handles = 1 /\ ops = <<>> /\ kk = 8 /\ nseq = 0
  /\ sendq = <<>> /\ outq = <<>> /\ wire = <<>> /\ txbad = FALSE /\ sent = <<>>
  /\ inq = <<>> /\ held = <<>> /\ subs = [s \in {} |-> 0]
  /\ own = [t \in Topics |-> 0] /\ chan = [t \in Topics |-> 0] /\ chans = <<>>
  /\ closed = FALSE /\ inDone = FALSE /\ outDone = FALSE /\ proc = <<>>

-----------------------------------------------------------------------------
(* Environment: user operations.  Each becomes a task that runs later.     *)

UsedBy(new) == ops' = Append(ops, new)
Base(t) == [t |-> t, st |-> "new", res |-> NoRes]

CallRec(e, raw, sq) ==
  [t |-> "call", st |-> "new", res |-> NoRes, e |-> e, raw |-> raw, sq |-> sq,
   gok |-> <<>>, gerr |-> <<>>, nok |-> 0, nerr |-> 0, by |-> 0, from |-> 0]

EnvUnch == UNCHANGED <<cfg, kk, nseq, outq, wire, sent, proc, closed, inDone, outDone,
                       own, chan, chans>>

\* A typed call: the client picks the sequence number.
E_Call(e) ==
  /\ handles > 0 /\ UsedBy(CallRec(e, FALSE, 0))
  /\ UNCHANGED <<handles, sendq, txbad, inq, held, subs>> /\ EnvUnch

\* A raw call with a sequence number chosen by the caller.
E_CallRaw(e, sq) ==
  /\ handles > 0 /\ UsedBy(CallRec(e, TRUE, sq))
  /\ UNCHANGED <<handles, sendq, txbad, inq, held, subs>> /\ EnvUnch

E_Pub(t, sq, sw) ==
  /\ handles > 0
  /\ UsedBy([t |-> "pub", st |-> "new", res |-> NoRes, top |-> t, sq |-> sq, sw |-> sw])
  /\ UNCHANGED <<handles, sendq, txbad, inq, held, subs>> /\ EnvUnch

E_Wait ==
  /\ handles > 0 /\ UsedBy(Base("wait"))
  /\ UNCHANGED <<handles, sendq, txbad, inq, held, subs>> /\ EnvUnch

\* mode: "x" exclusive, "l" legacy (replacing), "b" broadcast; raw or typed
E_Sub(mode, t, depth, raw) ==
  /\ handles > 0
  /\ UsedBy([t |-> "sub", st |-> "new", res |-> NoRes, mode |-> mode, top |-> t,
             depth |-> depth, raw |-> raw])
  /\ UNCHANGED <<handles, sendq, txbad, inq, held, subs>> /\ EnvUnch

Recving(s) == \E i \in 1..Len(ops) : ops[i].t = "recv" /\ ops[i].s = s /\ Live(ops[i])

E_Recv(s) ==
  /\ s \in DOMAIN subs /\ subs[s].alive /\ ~Recving(s)
  /\ UsedBy([t |-> "recv", st |-> "new", res |-> NoRes, s |-> s])
  /\ UNCHANGED <<handles, sendq, txbad, inq, held, subs>> /\ EnvUnch

\* Dropping a subscription (with a pending receive, if any).
E_DropSub(s) ==
  /\ s \in DOMAIN subs /\ subs[s].alive
  /\ subs' = [subs EXCEPT ![s].alive = FALSE]
  /\ ops' = [i \in 1..Len(ops) |->
               IF ops[i].t = "recv" /\ ops[i].s = s /\ Live(ops[i])
               THEN [ops[i] EXCEPT !.st = "gone"] ELSE ops[i]]
  /\ UNCHANGED <<handles, sendq, txbad, inq, held>> /\ EnvUnch

\* Cancelling (dropping) an unfinished call, publish or wait.
E_Cancel(i) ==
  /\ i \in 1..Len(ops) /\ Live(ops[i]) /\ ops[i].t \in {"call", "pub", "wait"}
  /\ ops' = [ops EXCEPT ![i].st = "gone"]
  /\ sendq' = SelectSeq(sendq, LAMBDA x : x # i)
  /\ UNCHANGED <<handles, txbad, inq, held, subs>> /\ EnvUnch

E_Clone == /\ handles > 0 /\ handles' = handles + 1
           /\ UNCHANGED <<ops, sendq, txbad, inq, held, subs>> /\ EnvUnch
E_Drop  == /\ handles > 0 /\ handles' = handles - 1
           /\ UNCHANGED <<ops, sendq, txbad, inq, held, subs>> /\ EnvUnch
E_Close == /\ handles > 0 /\ closed' = TRUE
           /\ UNCHANGED <<cfg, handles, ops, kk, nseq, sendq, outq, wire, txbad, sent, inq,
                          held, subs, own, chan, chans, inDone, outDone, proc>>

(* Environment: transport. *)
E_Rx(f) == /\ ~inDone /\ inq' = Append(inq, f)
           /\ UNCHANGED <<handles, ops, sendq, txbad, held, subs>> /\ EnvUnch

\* Many frames arrive at once.
E_RxMany(fs) == /\ ~inDone /\ inq' = inq \o fs
                /\ UNCHANGED <<handles, ops, sendq, txbad, held, subs>> /\ EnvUnch

\* A gated transport finishes the send in progress.
E_TxOk == /\ ~cfg.auto /\ wire # <<>> /\ ~txbad /\ ~outDone
          /\ wire' = <<>>
          /\ UNCHANGED <<cfg, handles, ops, kk, nseq, sendq, outq, txbad, sent, inq, held,
                         subs, own, chan, chans, closed, inDone, outDone, proc>>
\* The send in progress (gated) or the next one (automatic) fails.
E_TxErr == /\ ~txbad /\ ~outDone /\ (cfg.auto \/ wire # <<>>)
           /\ txbad' = TRUE
           /\ UNCHANGED <<handles, ops, sendq, inq, held, subs>> /\ EnvUnch

E_Tick == /\ held' = IF held # <<>> /\ held[1].left > 0
                     THEN <<[held[1] EXCEPT !.left = @ - 1]>> ELSE held
          /\ UNCHANGED <<handles, ops, sendq, txbad, inq, subs>> /\ EnvUnch

\* n typed calls in a row, each answered (with full-width keys) before the next one: only the
\* sequence counter moves.  Used to reach the wrap-around of the sequence numbers.
E_Loop(n) ==
  /\ cfg.auto /\ ~txbad /\ ~closed /\ handles > 0
  /\ sendq = <<>> /\ outq = <<>> /\ inq = <<>> /\ held = <<>>
  /\ \A i \in 1..Len(ops) : ops[i].t = "call" =>
        /\ ops[i].st \in {"out", "done", "gone"}
        /\ ops[i].st = "out" => /\ ~Answered(i)
                                /\ (ops[i].sq - nseq) % SeqMod(cfg.sw) >= n
  /\ nseq' = nseq + n /\ kk' = 8
  /\ UNCHANGED <<cfg, handles, ops, sendq, outq, wire, txbad, sent, inq, held, subs, own, chan,
                 chans, closed, inDone, outDone, proc>>

-----------------------------------------------------------------------------
(* The client: starting operations.                                        *)

Refused(i, sq, may) ==
  \E j \in CallsInFlight : j # i /\ ops[j].sq = sq /\ (may \/ ~Answered(j))

I_CallGo(i) ==
  /\ ops[i].t = "call" /\ ops[i].st = "new"
  /\ LET raw == ops[i].raw
         sq  == (IF raw THEN ops[i].sq ELSE nseq) % SeqMod(cfg.sw)
         f   == Frame(ReqK(ops[i].e), kk, sq, cfg.sw, i)
     IN  /\ nseq' = IF raw THEN nseq ELSE nseq + 1
         /\ \/ \* another call in flight waits on the same number
               /\ Refused(i, sq, TRUE) /\ Finish(i, Res("badresp", 0)) /\ UNCHANGED sendq
            \/ /\ ~Refused(i, sq, FALSE)
               /\ IF outDone
                  THEN Finish(i, Res("closed", 0)) /\ UNCHANGED sendq
                  ELSE /\ ops' = [ops EXCEPT ![i].st = "blk", ![i].sq = sq, ![i].from = Len(proc),
                                             ![i].res = [r |-> "frame", v |-> f]]
                       /\ sendq' = Append(sendq, i)
            \/ /\ closed /\ Finish(i, Res("closed", 0)) /\ UNCHANGED sendq
  /\ UNCHANGED <<cfg, handles, kk, outq, wire, txbad, sent, inq, held, subs, own, chan, chans,
                 closed, inDone, outDone, proc>>

I_PubGo(i) ==
  /\ ops[i].t = "pub" /\ ops[i].st = "new"
  /\ IF outDone
     THEN Finish(i, Res("closed", 0)) /\ UNCHANGED sendq
     ELSE /\ ops' = [ops EXCEPT ![i].st = "blk",
                       ![i].res = [r |-> "frame",
                                   v |-> Frame(TopK(ops[i].top), kk, ops[i].sq, ops[i].sw, i)]]
          /\ sendq' = Append(sendq, i)
  /\ UNCHANGED <<cfg, handles, kk, nseq, outq, wire, txbad, sent, inq, held, subs, own, chan,
                 chans, closed, inDone, outDone, proc>>

\* The head of the waiting operations gets a slot.
I_Accept ==
  /\ sendq # <<>> /\ Len(outq) < cfg.depth /\ ~outDone
  /\ LET i == Head(sendq) IN
       /\ outq' = Append(outq, ops[i].res.v)
       /\ ops' = [ops EXCEPT ![i].st  = IF ops[i].t = "pub" THEN "done" ELSE "out",
                             ![i].res = IF ops[i].t = "pub" THEN Res("ok", 0) ELSE NoRes]
  /\ sendq' = Tail(sendq)
  /\ UNCHANGED <<cfg, handles, kk, nseq, wire, txbad, sent, inq, held, subs, own, chan, chans,
                 closed, inDone, outDone, proc>>

\* The outgoing worker hands the oldest frame to the transport.
I_Out ==
  /\ ~outDone /\ wire = <<>> /\ outq # <<>>
  /\ outq' = Tail(outq) /\ sent' = Append(sent, Head(outq))
  /\ wire' = IF cfg.auto /\ ~txbad THEN <<>> ELSE <<Head(outq)>>
  /\ UNCHANGED <<cfg, handles, ops, kk, nseq, sendq, txbad, inq, held, subs, own, chan, chans,
                 closed, inDone, outDone, proc>>

Unblock == [i \in 1..Len(ops) |->
              IF ops[i].st = "blk" THEN [ops[i] EXCEPT !.st = "done", !.res = Res("closed", 0)]
              ELSE ops[i]]

\* A failed send, or the stop signal, or nobody left to send: the worker ends.
I_OutEnd ==
  /\ ~outDone
  /\ \/ wire # <<>> /\ txbad
     \/ closed
     \/ /\ handles = 0 /\ outq = <<>> /\ sendq = <<>> /\ wire = <<>>
        /\ \A i \in 1..Len(ops) : ~(Live(ops[i]) /\ HoldsHandle(ops[i]))
  /\ outDone' = TRUE /\ closed' = TRUE /\ outq' = <<>> /\ wire' = <<>>
  /\ ops' = Unblock /\ sendq' = <<>>
  /\ UNCHANGED <<cfg, handles, kk, nseq, txbad, sent, inq, held, subs, own, chan, chans, inDone, proc>>

-----------------------------------------------------------------------------
(* The client: finishing calls.                                            *)

CallResult(i, f) ==
  IF f.k = ErrK
  THEN IF f.b = Bad THEN Res("deser", 0) ELSE Res("wire", f.b)
  ELSE IF ops[i].raw THEN Res("raw", f)
       ELSE IF f.b = Bad THEN Res("deser", 0) ELSE Res("ok", f.b)

I_CallDone(i) ==
  /\ ops[i].t = "call" /\ ops[i].st = "out"
  \* should both a response and an error have arrived by now, either will do
  /\ \E x \in {<<ops[i].gok, ops[i].nok>>, <<ops[i].gerr, ops[i].nerr>>} :
       /\ x[1] # <<>>
       /\ kk' = x[1][1].w
       /\ ops' = [ops EXCEPT ![i].st = "done", ![i].res = CallResult(i, x[1][1]), ![i].by = x[2]]
  /\ UNCHANGED <<cfg, handles, nseq, sendq, outq, wire, txbad, sent, inq, held, subs, own, chan,
                 chans, closed, inDone, outDone, proc>>

I_OpClosed(i) ==
  /\ closed
  /\ \/ ops[i].t = "call" /\ ops[i].st = "out"
     \/ ops[i].t = "pub" /\ ops[i].st = "blk"
     \/ ops[i].t \in {"pub", "sub"} /\ ops[i].st = "new"
  /\ Finish(i, Res("closed", 0))
  /\ sendq' = SelectSeq(sendq, LAMBDA x : x # i)
  /\ UNCHANGED <<cfg, handles, kk, nseq, outq, wire, txbad, sent, inq, held, subs, own, chan,
                 chans, closed, inDone, outDone, proc>>

I_WaitDone(i) ==
  /\ closed /\ ops[i].t = "wait" /\ ops[i].st = "new"
  /\ Finish(i, Res("ok", 0))
  /\ UNCHANGED <<cfg, handles, kk, nseq, sendq, outq, wire, txbad, sent, inq, held, subs, own,
                 chan, chans, closed, inDone, outDone, proc>>

-----------------------------------------------------------------------------
(* The client: subscriptions.                                              *)

SubRec(o, ch, pos) ==
  [mode |-> o.mode, t |-> o.top, depth |-> o.depth, raw |-> o.raw, q |-> <<>>, alive |-> TRUE,
   snd |-> TRUE, ch |-> ch, pos |-> pos]

I_SubDo(i) ==
  /\ ops[i].t = "sub" /\ ops[i].st = "new"
  /\ LET o == ops[i]  cur == own[o.top] IN
     IF inDone
     THEN Finish(i, Res("closed", 0)) /\ UNCHANGED <<subs, own, chan, chans>>
     ELSE CASE o.mode = "b" ->
             /\ Finish(i, Res("sub", 0))
             /\ IF chan[o.top] = 0
                THEN /\ chans' = Append(chans, [t |-> o.top, cap |-> o.depth, log |-> <<>>, open |-> TRUE])
                     /\ chan' = [chan EXCEPT ![o.top] = Len(chans) + 1]
                     /\ subs' = (i :> SubRec(o, Len(chans) + 1, 0)) @@ subs
                ELSE /\ subs' = (i :> SubRec(o, chan[o.top], Len(chans[chan[o.top]].log))) @@ subs
                     /\ UNCHANGED <<chan, chans>>
             /\ UNCHANGED own
          [] o.mode = "x" /\ cur # 0 /\ subs[cur].alive ->
             Finish(i, Res("already", 0)) /\ UNCHANGED <<subs, own, chan, chans>>
          [] OTHER ->
             /\ Finish(i, Res("sub", 0))
             /\ subs' = (i :> SubRec(o, 0, 0)) @@ (IF cur = 0 THEN subs ELSE [subs EXCEPT ![cur].snd = FALSE])
             /\ own' = [own EXCEPT ![o.top] = i]
             /\ UNCHANGED <<chan, chans>>
  /\ UNCHANGED <<cfg, handles, kk, nseq, sendq, outq, wire, txbad, sent, inq, held,
                 closed, inDone, outDone, proc>>

\* What a receive on s would do now: "wait", "skip" (undecodable), or a result.
RecvNow(s) ==
  LET S == subs[s] IN
  IF S.mode = "b"
  THEN LET C == chans[S.ch]  n == Len(C.log) IN
       IF n - S.pos > C.cap THEN [d |-> "take", pos |-> n - C.cap, res |-> Res("lag", n - C.cap - S.pos)]
       ELSE IF S.pos < n
            THEN LET f == C.log[S.pos + 1] IN
                 IF ~S.raw /\ f.b = Bad THEN [d |-> "skip", pos |-> S.pos + 1, res |-> NoRes]
                 ELSE [d |-> "take", pos |-> S.pos + 1,
                       res |-> IF S.raw THEN Res("raw", f) ELSE Res("ok", f.b)]
            ELSE IF ~C.open THEN [d |-> "take", pos |-> S.pos, res |-> Res("end", 0)]
                 ELSE [d |-> "wait", pos |-> S.pos, res |-> NoRes]
  ELSE IF S.q # <<>>
       THEN LET f == Head(S.q) IN
            IF ~S.raw /\ f.b = Bad THEN [d |-> "skip", pos |-> 0, res |-> NoRes]
            ELSE [d |-> "take", pos |-> 0, res |-> IF S.raw THEN Res("raw", f) ELSE Res("ok", f.b)]
       ELSE IF ~S.snd THEN [d |-> "take", pos |-> 0, res |-> Res("end", 0)]
            ELSE [d |-> "wait", pos |-> 0, res |-> NoRes]

I_Recv(i) ==
  /\ ops[i].t = "recv" /\ ops[i].st = "new"
  /\ LET s == ops[i].s  x == RecvNow(s) IN
       /\ x.d # "wait"
       /\ subs' = IF subs[s].mode = "b" THEN [subs EXCEPT ![s].pos = x.pos]
                  ELSE IF subs[s].q # <<>> THEN [subs EXCEPT ![s].q = Tail(@)] ELSE subs
       /\ IF x.d = "skip" THEN UNCHANGED ops ELSE Finish(i, x.res)
  /\ UNCHANGED <<cfg, handles, kk, nseq, sendq, outq, wire, txbad, sent, inq, held, own, chan,
                 chans, closed, inDone, outDone, proc>>

-----------------------------------------------------------------------------
(* The client: the receive worker.                                         *)

Subscribed(t) == chan[t] # 0 \/ own[t] # 0
Matches(i, f) == /\ ops[i].sq = f.sq
                 /\ \/ f.k = RespK(ops[i].e) /\ ops[i].gok = <<>>
                    \/ f.k = ErrK /\ ops[i].gerr = <<>>

I_In ==
  /\ ~inDone /\ inq # <<>> /\ held = <<>>
  /\ LET f == Head(inq)  n == Len(proc) + 1 IN
     /\ inq' = Tail(inq) /\ proc' = Append(proc, f)
     /\ CASE f.k = RxErr ->
             closed' = TRUE /\ UNCHANGED <<ops, subs, own, chan, chans, held>>
        [] f.k = Garbage -> UNCHANGED <<ops, subs, own, chan, chans, held, closed>>
        [] \E t \in Topics : f.k = TopK(t) /\ Subscribed(t) ->
             LET t == f.k - 5
                 ch == chan[t]  x == own[t]
                 listening == \E s \in DOMAIN subs : subs[s].ch = ch /\ subs[s].alive IN
             /\ IF ch = 0 THEN UNCHANGED <<chan, chans>>
                ELSE IF listening THEN chans' = [chans EXCEPT ![ch].log = Append(@, f)] /\ UNCHANGED chan
                     ELSE chan' = [chan EXCEPT ![t] = 0] /\ UNCHANGED chans
             /\ IF x = 0 THEN UNCHANGED <<own, subs, held>>
                ELSE IF ~subs[x].alive THEN own' = [own EXCEPT ![t] = 0] /\ UNCHANGED <<subs, held>>
                     ELSE IF Len(subs[x].q) < subs[x].depth
                          THEN subs' = [subs EXCEPT ![x].q = Append(@, f)] /\ UNCHANGED <<own, held>>
                          ELSE IF cfg.tmo = 0 THEN UNCHANGED <<own, subs, held>>
                               ELSE held' = <<[f |-> f, s |-> x, left |-> cfg.tmo]>> /\ UNCHANGED <<own, subs>>
             /\ UNCHANGED <<ops, closed>>
        [] OTHER ->
             /\ LET m == {i \in CallsInFlight : Matches(i, f)} IN
                IF m = {} THEN UNCHANGED ops
                ELSE LET i == CHOOSE j \in m : TRUE
                     IN  ops' = IF f.k = ErrK THEN [ops EXCEPT ![i].gerr = <<f>>, ![i].nerr = n]
                                ELSE [ops EXCEPT ![i].gok = <<f>>, ![i].nok = n]
             /\ UNCHANGED <<subs, own, chan, chans, held, closed>>
  /\ UNCHANGED <<cfg, handles, kk, nseq, sendq, outq, wire, txbad, sent, inDone, outDone>>

\* The message held back finds room, loses its subscriber, or runs out of time.
I_Held ==
  /\ held # <<>> /\ ~inDone
  /\ LET s == held[1].s IN
     \/ /\ subs[s].alive /\ Len(subs[s].q) < subs[s].depth
        /\ subs' = [subs EXCEPT ![s].q = Append(@, held[1].f)] /\ held' = <<>> /\ UNCHANGED own
     \/ /\ ~subs[s].alive /\ held' = <<>> /\ UNCHANGED subs
        /\ own' = [own EXCEPT ![subs[s].t] = IF @ = s THEN 0 ELSE @]
     \/ /\ held[1].left = 0 /\ held' = <<>> /\ UNCHANGED <<subs, own>>
  /\ UNCHANGED <<cfg, handles, ops, kk, nseq, sendq, outq, wire, txbad, sent, inq, chan, chans,
                 closed, inDone, outDone, proc>>

\* The receive worker ends: every subscription's sender goes away.
I_InEnd ==
  /\ closed /\ ~inDone /\ inDone' = TRUE
  /\ held' = <<>> /\ inq' = <<>>
  /\ subs' = [s \in DOMAIN subs |-> [subs[s] EXCEPT !.snd = FALSE]]
  /\ chans' = [c \in 1..Len(chans) |-> [chans[c] EXCEPT !.open = FALSE]]
  /\ own' = [t \in Topics |-> 0] /\ chan' = [t \in Topics |-> 0]
  /\ UNCHANGED <<cfg, handles, ops, kk, nseq, sendq, outq, wire, txbad, sent, closed, outDone, proc>>

-----------------------------------------------------------------------------
Internal ==
  \/ \E i \in 1..Len(ops) :
        \/ I_CallGo(i) \/ I_PubGo(i) \/ I_CallDone(i) \/ I_OpClosed(i) \/ I_WaitDone(i)
        \/ I_SubDo(i) \/ I_Recv(i)
  \/ I_Accept \/ I_Out \/ I_OutEnd \/ I_In \/ I_Held \/ I_InEnd

\* Everything the client owes has been done.  A subscribe may wait while the receive worker
\* waits for room in a full queue.
Quiescent ==
  /\ \A i \in 1..Len(ops) : LET o == ops[i] IN
       /\ ~(o.t \in {"call", "pub"} /\ o.st = "new")
       /\ ~(o.t = "call" /\ o.st = "out" /\ (Answered(i) \/ closed))
       /\ ~(o.t = "pub" /\ o.st = "blk" /\ closed)
       /\ ~(o.t = "wait" /\ o.st = "new" /\ closed)
       /\ ~(o.t = "sub" /\ o.st = "new" /\ (held = <<>> \/ closed))
       /\ ~(o.t = "recv" /\ o.st = "new" /\ RecvNow(o.s).d # "wait")
  /\ ~(sendq # <<>> /\ Len(outq) < cfg.depth)
  /\ ~(~outDone /\ wire = <<>> /\ outq # <<>>)
  /\ ~(~outDone /\ (wire # <<>> /\ txbad))
  /\ closed => (inDone /\ outDone)
  /\ ~(~outDone /\ handles = 0 /\ outq = <<>> /\ sendq = <<>> /\ wire = <<>>
       /\ \A i \in 1..Len(ops) : ~(Live(ops[i]) /\ HoldsHandle(ops[i])))
  /\ ~(~inDone /\ inq # <<>> /\ held = <<>>)
  /\ ~(held # <<>> /\ (held[1].left = 0 \/ ~subs[held[1].s].alive
                       \/ Len(subs[held[1].s].q) < subs[held[1].s].depth))

-----------------------------------------------------------------------------
(* Properties.                                                             *)

Calls == {i \in 1..Len(ops) : ops[i].t = "call"}
FrameFor(i, f) == f.sq = ops[i].sq /\ f.k \in {RespK(ops[i].e), ErrK}

\* C01
SameKind(f, g) == (f.k = ErrK) <=> (g.k = ErrK)
CallsGetOwnResponse ==
  \A i \in Calls :
    (ops[i].st = "done" /\ ops[i].res.r \in {"ok", "raw", "wire", "deser"}) =>
      /\ ops[i].by > ops[i].from /\ ops[i].by <= Len(proc)
      /\ FrameFor(i, proc[ops[i].by])
      /\ ops[i].res = CallResult(i, proc[ops[i].by])
      \* it is the first of its kind, unless that one went to another call
      /\ \A n \in (ops[i].from + 1)..(ops[i].by - 1) :
            (FrameFor(i, proc[n]) /\ SameKind(proc[n], proc[ops[i].by])) =>
               \E j \in Calls : j # i /\ n \in {ops[j].nok, ops[j].nerr}
NoFrameServesTwo ==
  \A i, j \in Calls : i # j => ({ops[i].nok, ops[i].nerr} \cap {ops[j].nok, ops[j].nerr}) \subseteq {0}
NothingOwedIsMissed ==
  \A i \in CallsInFlight : \A n \in (ops[i].from + 1)..Len(proc) :
     (FrameFor(i, proc[n]) /\ ~Answered(i)) => \E j \in Calls : j # i /\ n \in {ops[j].nok, ops[j].nerr}
AutoSeqDistinct ==
  \A i, j \in CallsInFlight : (i # j /\ ~Answered(i) /\ ~Answered(j)) => ops[i].sq # ops[j].sq

\* C02
ClosedMeansFinished ==
  (closed /\ Quiescent) =>
     /\ inDone /\ outDone
     /\ \A i \in 1..Len(ops) : Live(ops[i]) => (ops[i].t = "recv" /\ FALSE)
     /\ \A s \in DOMAIN subs : subs[s].alive => RecvNow(s).d # "wait"
NothingSucceedsAfterEnd ==
  [][outDone => /\ sent' = sent
                /\ \A i \in 1..Len(ops) :
                      (ops[i].st = "new" /\ i \in DOMAIN ops' /\ ops'[i].st = "done"
                       /\ ops[i].t \in {"call", "pub"}) => ops'[i].res.r \in {"closed", "badresp"}]_vars
ClosedIsForever == [][closed => closed']_vars
OnlyEndsForACause ==
  [][(~closed /\ closed') =>
       \/ handles > 0 /\ UNCHANGED <<ops, proc>> /\ ~outDone'      \* close()
       \/ Len(proc') > Len(proc) /\ proc'[Len(proc')].k = RxErr
       \/ txbad
       \/ handles = 0]_vars

\* C08
KeyLenFromResponses ==
  [][kk' # kk => \E i \in Calls : ops[i].st = "out" /\ ops'[i].st = "done"
                   /\ ops'[i].by # 0 /\ proc[ops'[i].by].w = kk']_vars
\* a frame is built with the key length in use when its operation starts
FramesUseKeyLen ==
  [][\A i \in 1..Len(ops) : (ops[i].st = "new" /\ i \in DOMAIN ops' /\ ops'[i].st = "blk")
       => ops'[i].res.v.w = kk]_vars
\* and the one in use is that of the answer that completed a call last
LastAnswer == [][\A i \in Calls : (ops[i].st = "out" /\ ops'[i].st = "done" /\ ops'[i].by # 0)
                    => kk' = proc[ops'[i].by].w]_vars

\* C09
OneOwner ==
  \A t \in Topics : Cardinality({s \in DOMAIN subs :
     subs[s].mode # "b" /\ subs[s].t = t /\ subs[s].alive /\ subs[s].snd}) <= 1
ExclusiveKeepsOwner ==
  [][\A s \in DOMAIN subs :
       (subs[s].mode # "b" /\ subs[s].alive /\ subs[s].snd /\ ~subs'[s].snd) =>
          \/ closed
          \/ \E i \in 1..Len(ops) : ops[i].t = "sub" /\ ops[i].mode = "l" /\ ops[i].st = "new"
                                    /\ ops'[i].st = "done" /\ ops[i].top = subs[s].t]_vars

\* C10
QueueWithinDepth ==
  \A s \in DOMAIN subs : subs[s].mode # "b" => Len(subs[s].q) <= subs[s].depth
LossOnlyWhenFull ==
  [][(inq # <<>> /\ Len(proc') = Len(proc) + 1) =>
       LET f == Head(inq) IN
       \A s \in DOMAIN subs :
          (subs[s].mode # "b" /\ subs[s].alive /\ subs[s].snd /\ f.k = TopK(subs[s].t)
           /\ Len(subs[s].q) < subs[s].depth) => subs'[s].q = Append(subs[s].q, f)]_vars
HeldLostOnlyOnTimeout ==
  [][(held # <<>> /\ held' = <<>> /\ ~closed) =>
        LET s == held[1].s IN
        \/ held[1].left = 0
        \/ ~subs[s].alive
        \/ subs'[s].q = Append(subs[s].q, held[1].f)]_vars

\* C11
BroadcastToAll ==
  [][(Len(proc') = Len(proc) + 1 /\ inq # <<>>) =>
       LET f == Head(inq) IN
       \A s \in DOMAIN subs :
          (subs[s].mode = "b" /\ subs[s].alive /\ f.k = TopK(subs[s].t) /\ chans[subs[s].ch].open)
             => chans'[subs[s].ch].log = Append(chans[subs[s].ch].log, f)]_vars

\* C12
Accepted == {i \in 1..Len(ops) : ops[i].t \in {"call", "pub"}
                /\ \/ ops[i].t = "call" /\ ops[i].st = "out"
                   \/ ops[i].t = "pub" /\ ops[i].st = "done" /\ ops[i].res.r = "ok"}
SentOnce ==
  \A m, n \in 1..Len(sent) : m # n => sent[m].b # sent[n].b
AcceptedIsQueuedOrSent ==
  ~outDone => \A i \in Accepted :
      \/ \E n \in 1..Len(sent) : sent[n].b = i
      \/ \E n \in 1..Len(outq) : outq[n].b = i
SentIsAppendOnly ==
  [][\A n \in 1..Len(sent) : n <= Len(sent') /\ sent'[n] = sent[n]]_vars
QueueBounded == Len(outq) <= cfg.depth

\* C20: at most one call in flight per sequence number is AutoSeqDistinct.
RefusedSendsNothing ==
  \A i \in Calls : (ops[i].st = "done" /\ ops[i].res.r = "badresp") =>
      \A n \in 1..Len(sent) : sent[n].b # i

\* C22
GarbageHasNoEffect ==
  [][(inq # <<>> /\ Len(proc') = Len(proc) + 1 /\ Head(inq).k \in {Garbage, ForeignK}) =>
       UNCHANGED <<handles, ops, kk, nseq, sendq, outq, wire, sent, held, subs, own, chan, chans,
                   closed, inDone, outDone>>]_vars
=============================================================================
