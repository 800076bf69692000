-------------------------------- MODULE Nusb --------------------------------
(***************************************************************************)
(* The client on USB, on the host's side (raw_nusb).  The environment is   *)
(* the host controller: it lists devices, completes or fails transfers.    *)
(*  - connecting: the first device the caller's predicate accepts, its     *)
(*    first fitting interface, the bulk endpoints of that interface;       *)
(*  - sending: the device can cut the packets it gets into the frames      *)
(*    which were sent: a packet shorter than the maximum ends a frame, and *)
(*    nothing else does;                                                   *)
(*  - receiving: a transfer is a frame; a stalled endpoint is recovered    *)
(*    (all requests withdrawn, then the halt cleared), not more than       *)
(*    MaxErrs times in a row; every other failure closes the client.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT MaxErrs      \* 10
VARIABLES
  cfg,     \* [devs, ctor, want, mps]
  up,      \* "no" before connecting, "yes", "err"
  closed,
  ifr,     \* the endpoints in use: [dev, ifn, epin, epout, mps]
  outs,    \* lengths of the frames published and not yet completely with the device
  pos,     \* bytes of the first of them the device has
  fed,     \* its bytes are all there, in full packets: an empty packet is due
  npub,    \* frames published so far
  arr,     \* transfers from the device since the last Quiet, before the error: [kind, i, len]
  err,     \* the error since the last Quiet, or "none"
  post,    \* the transfers since then
  errs,    \* errors in a row
  clrf,    \* does clearing the halt fail?
  narr     \* transfers from the device so far
vars == <<cfg, up, closed, ifr, outs, pos, fed, npub, arr, err, post, errs, clrf, narr>>
link == <<cfg, up, ifr>>
out == <<outs, pos, fed, npub>>
in == <<arr, err, post, errs, clrf, narr>>
Nothing == [dev |-> 0, ifn |-> 0, epin |-> 0, epout |-> 0, mps |-> 0]
Init0(c) ==
  /\ cfg = c /\ up = "no" /\ closed = FALSE /\ ifr = Nothing
  /\ outs = <<>> /\ pos = 0 /\ fed = FALSE /\ npub = 0
  /\ arr = <<>> /\ err = "none" /\ post = <<>> /\ errs = 0 /\ clrf = FALSE /\ narr = 0
-----------------------------------------------------------------------------
(* connecting *)
First(S) == CHOOSE x \in S : \A y \in S : x <= y
BulkOf(i, d) == { k \in 1..Len(i.eps) : i.eps[k].t = "bulk" /\ i.eps[k].d = d }
Connect ==
  LET ds == { n \in 1..Len(cfg.devs) : cfg.devs[n].m } IN
  IF cfg.list /\ ds # {}
  THEN LET n == First(ds)
           dv == cfg.devs[n]
           is == CASE cfg.ctor = "auto" -> { k \in 1..Len(dv.ifs) : dv.ifs[k].cls = 255 }
                   [] cfg.ctor = "pick" -> { k \in 1..Len(dv.ifs) : dv.ifs[k].cls = cfg.want }
                   [] OTHER -> { k \in 1..Len(dv.ifs) : dv.ifs[k].no = cfg.want - 1 }
       IN IF is # {} /\ dv.open
          THEN LET k == First(is)
                   f == dv.ifs[k]
                   bi == BulkOf(f, "in")
                   bo == BulkOf(f, "out")
               IN IF f.claim /\ bi # {} /\ bo # {}
                  THEN [dev |-> n, ifn |-> k, epin |-> First(bi), epout |-> First(bo), mps |-> f.eps[First(bo)].mps]
                  ELSE Nothing
          ELSE Nothing
  ELSE Nothing
E_Connect ==
  /\ up = "no"
  /\ ifr' = Connect
  /\ up' = IF Connect = Nothing THEN "err" ELSE "yes"
  /\ UNCHANGED <<cfg, closed, out, in>>
-----------------------------------------------------------------------------
(* sending *)
E_Pub(len) ==
  /\ up = "yes" /\ ~closed
  /\ outs' = Append(outs, len) /\ npub' = npub + 1
  /\ UNCHANGED <<link, closed, pos, fed, in>>
\* on a closed client it fails
E_PubFail == up = "yes" /\ closed /\ UNCHANGED vars
Busy == outs # <<>>
\* a transfer of n bytes completes
E_OutOk(n) ==
  /\ up = "yes" /\ ~closed /\ Busy
  /\ IF n = 0 THEN fed
     ELSE ~fed /\ pos + n <= outs[1] /\ (pos + n < outs[1] => n % ifr.mps = 0)
  /\ LET all == pos + n = outs[1]
         ends == n % ifr.mps # 0 \/ n = 0
     IN IF ends THEN outs' = Tail(outs) /\ pos' = 0 /\ fed' = FALSE
        ELSE pos' = pos + n /\ fed' = all /\ UNCHANGED outs
  /\ UNCHANGED <<link, closed, npub, in>>
\* there is no transfer to complete
E_OutNone == up = "yes" /\ (closed \/ ~Busy) /\ UNCHANGED vars
E_OutErr ==
  /\ up = "yes" /\ ~closed /\ Busy
  /\ closed' = TRUE /\ outs' = <<>> /\ pos' = 0 /\ fed' = FALSE
  /\ UNCHANGED <<link, npub, in>>
E_Close == up = "yes" /\ closed' = TRUE /\ outs' = <<>> /\ pos' = 0 /\ fed' = FALSE /\ UNCHANGED <<link, npub, in>>
-----------------------------------------------------------------------------
(* receiving *)
E_In(kind, len) ==
  /\ up = "yes"
  /\ narr' = narr + 1
  /\ LET x == [kind |-> kind, i |-> narr + 1, len |-> len] IN
     IF err = "none" THEN arr' = Append(arr, x) /\ UNCHANGED post ELSE post' = Append(post, x) /\ UNCHANGED arr
  /\ UNCHANGED <<link, closed, out, err, errs, clrf>>
\* the oldest request fails; there may be none free if transfers came in just before
E_InErr(kind, had) ==
  /\ up = "yes" /\ err = "none"
  /\ IF closed THEN ~had ELSE (arr = <<>>) => had
  /\ err' = IF had THEN kind ELSE "none"
  /\ UNCHANGED <<link, closed, out, arr, post, errs, clrf, narr>>
E_Clr(b) == up = "yes" /\ err = "none" /\ clrf' = b /\ UNCHANGED <<link, closed, out, arr, err, post, errs, narr>>
RECURSIVE Good(_)
Good(s) == IF s = <<>> THEN <<>> ELSE (IF s[1].kind = "good" THEN <<[i |-> s[1].i, len |-> s[1].len]>> ELSE <<>>) \o Good(Tail(s))
RECURSIVE Subs(_)
Subs(s) == IF s = <<>> THEN {<<>>} ELSE LET r == Subs(Tail(s)) IN r \cup { <<s[1]>> \o x : x \in r }
Now == (IF arr = <<>> THEN errs ELSE 0) + 1
Recovers == err \in {"stall", "unknown"} /\ Now <= MaxErrs /\ ~clrf
\* what may reach the subscriber
Gots ==
  IF closed THEN {<<>>}
  ELSE { Good(arr) \o Good(p) : p \in IF ~Recovers THEN {<<>>} ELSE IF err = "stall" THEN {post} ELSE Subs(post) }
\* came anything in after the error?
E_Quiet(g) ==
  /\ up = "yes"
  /\ (g \in Gots) = TRUE
  /\ closed' = (closed \/ (err # "none" /\ ~Recovers))
  /\ errs' = IF err = "none" THEN (IF arr = <<>> THEN errs ELSE 0)
             ELSE IF (err = "stall" /\ post # <<>>) \/ (Len(g) > Len(Good(arr))) THEN 0 ELSE Now
  /\ arr' = <<>> /\ err' = "none" /\ post' = <<>>
  /\ IF closed' THEN outs' = <<>> /\ pos' = 0 /\ fed' = FALSE ELSE UNCHANGED <<outs, pos, fed>>
  /\ UNCHANGED <<link, npub, clrf, narr>>
=============================================================================
