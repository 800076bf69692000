------------------------------- MODULE UsbTx --------------------------------
(***************************************************************************)
(* The transmit side of the USB device transport: concurrent senders share *)
(* one bulk endpoint.  A frame is sent as packets of 64 bytes and a short  *)
(* or empty one; a frame that was left unfinished is closed off with an    *)
(* empty packet before the next one.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  cfg,     \* [v: driver version, buf: length of the transmit buffer, auto: the host takes packets at once]
  ep,      \* is the endpoint enabled?
  slot,    \* <<>> or <<[op, len, st]>>: the packet being written; st: "offered", "taken" or "acked"
  ops,     \* sequence of [kind, len, st, todo, dl, r]
  holder,  \* the sender that owns the endpoint, or 0
  pend,    \* was the last frame left unfinished?
  now, tmo,
  wire,    \* every packet the host got, in order: [op, len]
  done     \* operations in order of completion: [i, r]
vars == <<cfg, ep, slot, ops, holder, pend, now, tmo, wire, done>>

MaxPkt == 64
Init0(c) ==
  /\ cfg = c /\ ep = TRUE /\ slot = <<>> /\ ops = <<>> /\ holder = 0 /\ pend = FALSE
  /\ now = 0 /\ tmo = 2 /\ wire = <<>> /\ done = <<>>

\* the packets of a frame
Chunks(n) == [j \in 1..((n \div MaxPkt) + 1) |-> IF j <= n \div MaxPkt THEN MaxPkt ELSE n % MaxPkt]
Packets(n) == (n + MaxPkt - 1) \div MaxPkt
Fits(o) == o.kind = "raw" \/ o.len <= cfg.buf
Clamp(n) == IF n < 1 THEN 1 ELSE IF n > 60000 THEN 60000 ELSE n
Live(i) == ops[i].st \in {"lock", "send"}

-----------------------------------------------------------------------------
E_Start(kind, len) ==
  /\ ops' = Append(ops, [kind |-> kind, len |-> len, st |-> "lock", todo |-> <<>>, dl |-> 0, r |-> ""])
  /\ UNCHANGED <<cfg, ep, slot, holder, pend, now, tmo, wire, done>>
\* the sender gives up
E_Drop(i) ==
  /\ Live(i) /\ ops' = [ops EXCEPT ![i].st = "dropped"]
  /\ IF holder = i THEN holder' = 0 /\ slot' = <<>> ELSE UNCHANGED <<holder, slot>>
  /\ UNCHANGED <<cfg, ep, pend, now, tmo, wire, done>>
\* the host takes the packet; the device learns of it (now, or with E_Ack)
E_Take(st) ==
  /\ ~cfg.auto /\ ep /\ slot # <<>> /\ slot[1].st = "offered"
  /\ slot' = <<[slot[1] EXCEPT !.st = st]>>
  /\ wire' = Append(wire, [op |-> slot[1].op, len |-> slot[1].len])
  /\ UNCHANGED <<cfg, ep, ops, holder, pend, now, tmo, done>>
E_Ack ==
  /\ ep /\ slot # <<>> /\ slot[1].st = "taken" /\ slot' = <<[slot[1] EXCEPT !.st = "acked"]>>
  /\ UNCHANGED <<cfg, ep, ops, holder, pend, now, tmo, wire, done>>
E_Disable == ep /\ ep' = FALSE /\ UNCHANGED <<cfg, slot, ops, holder, pend, now, tmo, wire, done>>
E_Enable == ~ep /\ ep' = TRUE /\ UNCHANGED <<cfg, slot, ops, holder, pend, now, tmo, wire, done>>
E_Tick(n) == now' = now + n /\ UNCHANGED <<cfg, ep, slot, ops, holder, pend, tmo, wire, done>>

-----------------------------------------------------------------------------
\* operation i ends with result r and lets go of the endpoint
Finish(i, r) ==
  /\ ops' = [ops EXCEPT ![i].st = "done", ![i].r = r] /\ done' = Append(done, [i |-> i, r |-> r])
  /\ holder' = 0 /\ slot' = <<>>

I_Lock(i) ==
  /\ holder = 0 /\ ops[i].st = "lock"
  /\ IF ops[i].kind = "tmo" THEN Finish(i, "ok") /\ tmo' = Clamp(ops[i].len) /\ UNCHANGED pend
     ELSE IF ~Fits(ops[i]) THEN Finish(i, "other") /\ UNCHANGED <<tmo, pend>>
     ELSE IF ops[i].len = 0 THEN Finish(i, "ok") /\ UNCHANGED <<tmo, pend>>
     ELSE /\ holder' = i /\ pend' = TRUE
          /\ ops' = [ops EXCEPT ![i].st = "send", ![i].dl = now + Packets(ops[i].len) * tmo,
                                ![i].todo = (IF pend THEN <<0>> ELSE <<>>) \o Chunks(ops[i].len)]
          /\ UNCHANGED <<slot, done, tmo>>
  /\ UNCHANGED <<cfg, ep, now, wire>>

Sending(i) == holder = i /\ ops[i].st = "send"

I_Write(i) ==
  /\ Sending(i) /\ slot = <<>> /\ ops[i].todo # <<>> /\ ep
  /\ IF cfg.auto
     THEN /\ wire' = Append(wire, [op |-> i, len |-> Head(ops[i].todo)])
          /\ ops' = [ops EXCEPT ![i].todo = Tail(@)] /\ UNCHANGED slot
     ELSE slot' = <<[op |-> i, len |-> Head(ops[i].todo), st |-> "offered"]>> /\ UNCHANGED <<wire, ops>>
  /\ UNCHANGED <<cfg, ep, holder, pend, now, tmo, done>>
I_Acked(i) ==
  /\ Sending(i) /\ slot # <<>> /\ slot[1].st = "acked" /\ slot' = <<>>
  /\ ops' = [ops EXCEPT ![i].todo = Tail(@)]
  /\ UNCHANGED <<cfg, ep, holder, pend, now, tmo, wire, done>>
I_Fail(i) ==
  /\ Sending(i) /\ ~ep /\ ops[i].todo # <<>>
  /\ IF slot = <<>> THEN TRUE ELSE slot[1].st # "acked"
  /\ Finish(i, "closed") /\ UNCHANGED <<cfg, ep, pend, now, tmo, wire>>
I_Timeout(i) ==
  /\ Sending(i) /\ now >= ops[i].dl
  /\ Finish(i, "timeout") /\ UNCHANGED <<cfg, ep, pend, now, tmo, wire>>
I_Sent(i) ==
  /\ Sending(i) /\ ops[i].todo = <<>> /\ pend' = FALSE
  /\ Finish(i, "ok") /\ UNCHANGED <<cfg, ep, now, tmo, wire>>

Internal == \E i \in 1..Len(ops) :
  I_Lock(i) \/ I_Write(i) \/ I_Acked(i) \/ I_Fail(i) \/ I_Timeout(i) \/ I_Sent(i)
Quiescent ==
  /\ holder = 0 => \A i \in 1..Len(ops) : ops[i].st # "lock"
  /\ holder # 0 => /\ ep /\ slot # <<>> /\ slot[1].st # "acked" /\ now < ops[holder].dl

-----------------------------------------------------------------------------
(* What the host makes of it: it cuts the stream after every short packet. *)
RECURSIVE Cut(_, _, _)
Cut(w, piece, acc) ==
  IF w = <<>> THEN IF piece = <<>> THEN acc ELSE Append(acc, piece)
  ELSE IF Head(w).len < MaxPkt THEN Cut(Tail(w), <<>>, Append(acc, Append(piece, Head(w))))
  ELSE Cut(Tail(w), Append(piece, Head(w)), acc)
Pieces == Cut(wire, <<>>, <<>>)
RECURSIVE Total(_)
Total(p) == IF p = <<>> THEN 0 ELSE Head(p).len + Total(Tail(p))
\* whose bytes are in a piece
Owners(p) == {p[j].op : j \in {k \in 1..Len(p) : p[k].len > 0}}
NotEmpty == SelectSeq(Pieces, LAMBDA p : Total(p) > 0)

NeverGlued == \A n \in 1..Len(NotEmpty) : Cardinality(Owners(NotEmpty[n])) = 1
OnePieceEach == \A m, n \in 1..Len(NotEmpty) : m # n => Owners(NotEmpty[m]) # Owners(NotEmpty[n])
\* the frames reported as sent, in order, are exactly what the host has, leaving out what was not reported as sent
OkPieces == SelectSeq(NotEmpty, LAMBDA p : \A i \in Owners(p) : ops[i].st = "done" /\ ops[i].r = "ok")
OkOps == SelectSeq(done, LAMBDA d : d.r = "ok" /\ ops[d.i].kind # "tmo" /\ ops[d.i].len > 0)
HostHasThem ==
  /\ Len(OkPieces) = Len(OkOps)
  /\ \A n \in 1..Len(OkOps) : Owners(OkPieces[n]) = {OkOps[n].i} /\ Total(OkPieces[n]) = ops[OkOps[n].i].len
SmallPackets == \A n \in 1..Len(wire) : wire[n].len <= MaxPkt
TooLargeSilent == \A n \in 1..Len(wire) : Fits(ops[wire[n].op])
(* Time-outs: counted from when the sender has the transmitter, never early, and always in the end *)
TimeoutNotEarly == [][\A i \in 1..Len(ops) :
  (Live(i) /\ ops'[i].st = "done" /\ ops'[i].r = "timeout") => (ops[i].st = "send" /\ now >= ops[i].dl)]_vars
DeadlineFixed == [][\A i \in 1..Len(ops) :
  /\ ops[i].st = "send" => ops'[i].dl = ops[i].dl
  /\ (ops[i].st = "lock" /\ ops'[i].st = "send") => ops'[i].dl = now + Packets(ops[i].len) * tmo]_vars
OverdueEnds == (holder # 0 /\ Quiescent) => now < ops[holder].dl
TmoInRange == tmo \in 1..60000
OneAtATime == \A i \in 1..Len(ops) : (ops[i].st = "send") => holder = i
=============================================================================
