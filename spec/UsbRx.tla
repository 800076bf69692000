------------------------------- MODULE UsbRx --------------------------------
(***************************************************************************)
(* The receive side of the USB device transport: packets of 64 bytes and a *)
(* short or empty one are put together into a frame.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,     \* [v: driver version, buf: length of the receive buffer]
  ep,      \* is the endpoint enabled?
  q,       \* packets waiting at the endpoint: [f, len], f the number of the frame they belong to
  acc,     \* bytes of the current frame read so far
  told,    \* was the current frame already reported as too large?
  recv,    \* is a receive going on?
  results  \* [r, f, len]
vars == <<cfg, ep, q, acc, told, recv, results>>
MaxPkt == 64
Init0(c) == cfg = c /\ ep = TRUE /\ q = <<>> /\ acc = 0 /\ told = FALSE /\ recv = FALSE /\ results = <<>>
Res(r, f, n) == results' = Append(results, [r |-> r, f |-> f, len |-> n]) /\ recv' = FALSE

E_Recv == ~recv /\ recv' = TRUE /\ UNCHANGED <<cfg, ep, q, acc, told, results>>
E_Pkt(f, n) == ep /\ q' = Append(q, [f |-> f, len |-> n]) /\ UNCHANGED <<cfg, ep, acc, told, recv, results>>
\* a disconnection loses what the device had not read
E_Disable == ep /\ ep' = FALSE /\ q' = <<>> /\ UNCHANGED <<cfg, acc, told, recv, results>>
\* a receive in progress has noticed before the host is back
E_Enable == ~ep /\ ~recv /\ ep' = TRUE /\ acc' = 0 /\ told' = FALSE /\ UNCHANGED <<cfg, q, recv, results>>

I_Read ==
  /\ recv /\ ep /\ q # <<>> /\ q' = Tail(q)
  /\ LET p == Head(q)  n == acc + p.len IN
     IF p.len = MaxPkt THEN acc' = n /\ UNCHANGED <<told, recv, results>>
     ELSE /\ acc' = 0 /\ told' = FALSE
          /\ IF told THEN UNCHANGED <<recv, results>>
             ELSE IF n <= cfg.buf THEN Res("ok", p.f, n) ELSE Res("toolarge", 0, 0)
  /\ UNCHANGED <<cfg, ep>>
\* a frame may be reported as too large as soon as that is known; its rest is still discarded
I_Early == recv /\ ep /\ acc > cfg.buf /\ ~told /\ told' = TRUE /\ Res("toolarge", 0, 0) /\ UNCHANGED <<cfg, ep, q, acc>>
I_Closed == recv /\ ~ep /\ Res("closed", 0, 0) /\ acc' = 0 /\ told' = FALSE /\ UNCHANGED <<cfg, ep, q>>
Internal == I_Read \/ I_Early \/ I_Closed
\* (I_Early may be taken but does not have to be)
Quiescent == recv => (ep /\ q = <<>>)
=============================================================================
