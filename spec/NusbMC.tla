------------------------------- MODULE NusbMC -------------------------------
(* The device's view of sending: it cuts the packets into frames by their size alone; and when the      *)
(* client closes.  Environment and client explored exhaustively within small bounds.                   *)
EXTENDS Nusb
CONSTANTS Cfgs, Lens, MaxPub, MaxArr, MaxQ
VARIABLES
  sent,   \* lengths of all frames published
  cut,    \* lengths of the frames the device has cut out
  part,   \* bytes since the last cut
  fatal,  \* something happened which must close the client
  got,    \* what the subscriber has
  row,    \* errors in a row, counted from outside
  nq
mvars == <<vars, sent, cut, part, fatal, got, row, nq>>
Init == (\E c \in Cfgs : Init0(c)) /\ sent = <<>> /\ cut = <<>> /\ part = 0 /\ fatal = FALSE /\ got = <<>> /\ row = 0 /\ nq = 0
Same == UNCHANGED <<sent, cut, part, fatal, got, row, nq>>
\* packets of one transfer
Packets(n) == IF n = 0 THEN <<0>> ELSE [k \in 1..((n + ifr.mps - 1) \div ifr.mps) |-> IF k * ifr.mps <= n THEN ifr.mps ELSE n % ifr.mps]
RECURSIVE Cut(_, _, _)
Cut(p, c, r) == IF p = <<>> THEN [c |-> c, r |-> r]
                ELSE IF p[1] < ifr.mps THEN Cut(Tail(p), Append(c, r + p[1]), 0) ELSE Cut(Tail(p), c, r + p[1])
Next ==
  \/ E_Connect /\ Same
  \/ \E n \in Lens : npub < MaxPub /\ E_Pub(n) /\ sent' = Append(sent, n) /\ UNCHANGED <<cut, part, fatal, got, row, nq>>
  \/ \E n \in 0..10 : E_OutOk(n) /\ LET x == Cut(Packets(n), cut, part) IN cut' = x.c /\ part' = x.r
                      /\ UNCHANGED <<sent, fatal, got, row, nq>>
  \/ E_OutErr /\ fatal' = TRUE /\ UNCHANGED <<sent, cut, part, got, row, nq>>
  \/ arr = <<>> /\ err = "none" /\ E_Close /\ fatal' = TRUE /\ UNCHANGED <<sent, cut, part, got, row, nq>>
  \/ ~closed /\ narr < MaxArr /\ \E k \in {"good", "empty"} : (err = "unknown" => k = "good") /\ E_In(k, 1) /\ Same
  \/ \E k \in {"stall", "unknown", "fault"} :
       /\ E_InErr(k, TRUE)
       /\ fatal' = (fatal \/ k = "fault" \/ clrf \/ (arr = <<>> /\ row >= MaxErrs))
       /\ UNCHANGED <<sent, cut, part, got, row, nq>>
  \/ \E b \in BOOLEAN : b # clrf /\ E_Clr(b) /\ Same
  \/ /\ nq < MaxQ /\ up = "yes" /\ ~closed
     /\ \E g \in Gots : /\ E_Quiet(g) /\ got' = got \o g
                        /\ row' = IF err = "none" THEN (IF arr = <<>> THEN row ELSE 0)
                                  ELSE IF Len(g) > Len(Good(arr)) \/ (err = "stall" /\ post # <<>>) THEN 0
                                  ELSE (IF arr = <<>> THEN row ELSE 0) + 1
     /\ nq' = nq + 1 /\ UNCHANGED <<sent, cut, part, fatal>>
Spec == Init /\ [][Next]_mvars
\* the device has cut out exactly the first frames sent
DeviceSeesFrames == /\ Len(cut) <= Len(sent) /\ \A k \in 1..Len(cut) : cut[k] = sent[k]
                    /\ (up = "yes" /\ ~closed /\ ~Busy) => Len(cut) = Len(sent)
ClosedForAReason == closed => fatal
FatalCloses == (fatal /\ err = "none" /\ nq > 0) => closed
InOrder == \A a, b \in 1..Len(got) : a < b => got[a].i < got[b].i
NeverTooMany == errs <= MaxErrs + 1 /\ errs = row
=============================================================================
