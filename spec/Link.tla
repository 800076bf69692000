-------------------------------- MODULE Link --------------------------------
(* A host client on raw USB (raw_nusb) joined by a cable to a device on embassy-usb (v0.3 or v0.4).     *)
(*                                                                                                       *)
(* The device describes itself; the host finds the interface and its endpoints in that description, and  *)
(* calls then travel as transfers of 64-byte packets. Each direction of the cable carries as many        *)
(* packets as the environment lets through. The host's requests and the device's replies end with a      *)
(* packet that is not full. The device takes one request at a time: the next one when the reply to the   *)
(* last one has gone. The host asks for 1024 bytes at a time.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg,        \* [v |-> 3 or 4, kw |-> width of the device's keys, ep |-> which endpoint numbers]
  calls,               \* what the host called: [n, m, len] sizes of request body, reply body and request frame
  narrow,              \* the host has learned how wide the device's keys are
  opk,                 \* packets waiting on the host: [c, short]
  ocred, icred,        \* packets the cable may still carry
  outs, ins,           \* packets it carried
  dev,                 \* requests the device has completely, not yet handled
  rpk,                 \* packets of the reply the device is sending: [c, sz]
  part,                \* bytes of the transfer the host is receiving
  seen,                \* calls the handler got
  done                 \* calls that returned to the caller
vars == <<cfg, calls, narrow, opk, ocred, icred, outs, ins, dev, rpk, part, seen, done>>
Mps == 64
Transfer == 1024
Min(a, b) == IF a < b THEN a ELSE b
\* a frame in packets: full ones and one that is not
Chunks(c, len) == [k \in 1..(len \div Mps + 1) |-> [c |-> c, sz |-> Min(Mps, len - Mps * (k - 1))]]
ReqLen(n) == 3 + (IF narrow THEN cfg.kw ELSE 8) + n
RepLen(m) == 3 + cfg.kw + m
Init0(k) ==
  /\ cfg = k /\ calls = <<>> /\ narrow = FALSE /\ opk = <<>> /\ ocred = 0 /\ icred = 0 /\ outs = 0 /\ ins = 0
  /\ dev = <<>> /\ rpk = <<>> /\ part = 0 /\ seen = <<>> /\ done = <<>>

(* -------- the description of the device -------- *)
RECURSIVE Split(_)
Split(d) == IF Len(d) < 2 THEN <<>>
            ELSE IF d[1] < 2 \/ d[1] > Len(d) THEN <<<<0, 0>>>>
            ELSE <<SubSeq(d, 1, d[1])>> \o Split(SubSeq(d, d[1] + 1, Len(d)))
Nums(e) == <<<<1, 1>>, <<1, 2>>, <<3, 1>>, <<5, 4>>>>[e + 1]
IsIface(x) == x[2] = 4 /\ Len(x) = 9
IsEp(x) == x[2] = 5 /\ Len(x) = 7
Range(s) == {s[k] : k \in 1..Len(s)}
\* the configuration is well formed, and has one vendor interface with one bulk endpoint each way, of 64-byte packets
Described(e) ==
  LET s == Split(e.desc) ifs == SelectSeq(s, IsIface) eps == SelectSeq(s, IsEp) nn == Nums(cfg.ep) IN
  /\ <<0, 0>> \notin Range(s)
  /\ e.total = Len(e.desc)
  /\ Len(ifs) = 1
  /\ ifs[1][6] = 255 /\ ifs[1][4] = 0 /\ ifs[1][5] = 2
  /\ Len(eps) = 2
  /\ {x[3] : x \in Range(eps)} = {nn[1], 128 + nn[2]}
  /\ \A x \in Range(eps) : x[4] = 2 /\ x[5] + 256 * x[6] = Mps
  /\ e.ifn = ifs[1][3]
  /\ Range(e.enabled) = {nn[1], 128 + nn[2]}
  /\ (e.how = "poststation" => ifs[1][7] = 202 /\ ifs[1][8] = 125 /\ e.names = <<"Poststation">>)
\* the host finds it, and Windows finds its driver
Found(e) == e.ok /\ e.listening /\ e.winusb /\ e.guid /\ e.serial = "yes1"
E_Connect(e) == (Found(e) /\ Described(e)) = TRUE /\ UNCHANGED vars

(* -------- the environment -------- *)
E_Call(n, m) ==
  /\ n >= 4 /\ RepLen(m) <= Transfer
  /\ calls' = Append(calls, [n |-> n, m |-> m, len |-> ReqLen(n)])
  /\ opk' = opk \o Chunks(Len(calls) + 1, ReqLen(n))
  /\ UNCHANGED <<cfg, narrow, ocred, icred, outs, ins, dev, rpk, part, seen, done>>
E_Out(k) == ocred' = ocred + k /\ UNCHANGED <<cfg, calls, narrow, opk, icred, outs, ins, dev, rpk, part, seen, done>>
E_In(k) == icred' = icred + k /\ UNCHANGED <<cfg, calls, narrow, opk, ocred, outs, ins, dev, rpk, part, seen, done>>
\* the endpoint stalls between two transfers: the host clears that and goes on
E_Stall(had) == had = (part = 0) /\ UNCHANGED vars

(* -------- the system -------- *)
S_Out ==
  /\ opk # <<>> /\ ocred > 0
  /\ ocred' = ocred - 1 /\ outs' = outs + 1 /\ opk' = Tail(opk)
  /\ dev' = IF opk[1].sz < Mps THEN Append(dev, opk[1].c) ELSE dev
  /\ UNCHANGED <<cfg, calls, narrow, icred, ins, rpk, part, seen, done>>
S_Handle ==
  /\ dev # <<>> /\ rpk = <<>>
  /\ seen' = Append(seen, dev[1]) /\ dev' = Tail(dev)
  /\ rpk' = Chunks(dev[1], RepLen(calls[dev[1]].m))
  /\ UNCHANGED <<cfg, calls, narrow, opk, ocred, icred, outs, ins, part, done>>
S_In ==
  /\ rpk # <<>> /\ icred > 0
  /\ icred' = icred - 1 /\ ins' = ins + 1 /\ rpk' = Tail(rpk)
  /\ LET got == part + rpk[1].sz
         whole == rpk[1].sz < Mps \/ got = Transfer IN
     /\ part' = IF whole THEN 0 ELSE got
     \* an empty transfer means nothing
     /\ done' = IF whole /\ got > 0 THEN Append(done, rpk[1].c) ELSE done
     /\ narrow' = (narrow \/ (whole /\ got > 0))
  /\ UNCHANGED <<cfg, calls, opk, ocred, outs, dev, seen>>
Internal == S_Out \/ S_Handle \/ S_In
Quiescent == ~((opk # <<>> /\ ocred > 0) \/ (dev # <<>> /\ rpk = <<>>) \/ (rpk # <<>> /\ icred > 0))

(* -------- what a user relies on -------- *)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Order(n) == [k \in 1..n |-> k]
\* each call is handled once, in turn, and answered by its own reply
OnceEach == seen = Order(Len(seen)) /\ done = Order(Len(done)) /\ IsPrefix(done, seen) /\ Len(seen) <= Len(calls)
\* the device handles one at a time
OneAtATime == Len(seen) - Len(done) <= 1
\* with enough packets carried, nothing stays behind
NothingLost == (Quiescent /\ ocred > 0 /\ icred > 0) => Len(done) = Len(calls)
\* nothing is sent that was not asked for
NoSpareReplies == Len(done) = Len(calls) => (opk = <<>> /\ dev = <<>> /\ \A k \in 1..Len(rpk) : rpk[k].sz = 0)
\* a transfer never outgrows what the host asked for
FitsTransfer == part < Transfer
=============================================================================
