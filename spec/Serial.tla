------------------------------- MODULE Serial -------------------------------
(***************************************************************************)
(* The client on a serial line.  The device's stream consists of pieces,   *)
(* each up to a zero byte; the good ones reach the client, once and in     *)
(* order, however the bytes come in.  What the client publishes reaches    *)
(* the device in the same coding.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,    \* [w, sw: widths the device uses]
  ps,     \* pieces of the device's stream: [kind, len]
  upto,   \* pieces sent completely
  pubs,   \* messages the client published: their lengths
  gone,   \* did the other side go away?
  dseen, pseen
vars == <<cfg, ps, upto, pubs, gone, dseen, pseen>>
Init0(c) == cfg = c /\ ps = <<>> /\ upto = 0 /\ pubs = <<>> /\ gone = FALSE /\ dseen = 0 /\ pseen = 0
E_Piece(kind, len) == ~gone /\ ps' = Append(ps, [kind |-> kind, len |-> len]) /\ UNCHANGED <<cfg, upto, pubs, gone, dseen, pseen>>
E_Write(n) == ~gone /\ n >= upto /\ n <= Len(ps) /\ upto' = n /\ UNCHANGED <<cfg, ps, pubs, gone, dseen, pseen>>
E_Pub(len) == ~gone /\ pubs' = Append(pubs, len) /\ UNCHANGED <<cfg, ps, upto, gone, dseen, pseen>>
E_Hangup == ~gone /\ gone' = TRUE /\ UNCHANGED <<cfg, ps, upto, pubs, dseen, pseen>>
\* what the client has by then: the good pieces from a on
RECURSIVE Good(_, _)
Good(a, b) == IF a > b THEN <<>> ELSE (IF ps[a].kind = "good" THEN <<[i |-> a, len |-> ps[a].len]>> ELSE <<>>) \o Good(a + 1, b)
NewGot == Good(dseen + 1, upto)
NewSent == [j \in 1..(Len(pubs) - pseen) |-> [i |-> pseen + j, len |-> pubs[pseen + j]]]
E_Quiet == dseen' = upto /\ pseen' = Len(pubs) /\ UNCHANGED <<cfg, ps, upto, pubs, gone>>
=============================================================================
