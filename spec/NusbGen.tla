------------------------------ MODULE NusbGen -------------------------------
EXTENDS Nusb, Json
CONSTANTS Cfgs, Lens, InLens, ErrBias, ScriptLen
VARIABLES h, fin
gvars == <<vars, h, fin>>
Log(e) == h' = Append(h, e) /\ UNCHANGED fin
Room == ~fin /\ Len(h) < ScriptLen /\ up = "yes"
Kinds == {"stall", "unknown", "cancelled", "disconnected", "fault"}
G_Connect == E_Connect /\ Log([a |-> "Connect"])
G_Pub == Room /\ ~closed /\ err = "none" /\ Len(outs) < 5 /\ \E n \in Lens : E_Pub(n) /\ Log([a |-> "Pub", len |-> n])
G_PubFail == Room /\ E_PubFail /\ \E n \in Lens : Log([a |-> "Pub", len |-> n])
\* as the transfers come now: the whole frame, then the empty packet
G_OutOk == Room /\ ~closed /\ err = "none" /\ Busy /\ E_OutOk(IF fed THEN 0 ELSE outs[1]) /\ Log([a |-> "OutOk"])
G_OutOk2 == G_OutOk
G_OutNone == Room /\ ~closed /\ err = "none" /\ ~Busy /\ h[Len(h)].a # "OutOk" /\ E_OutNone /\ Log([a |-> "OutOk"])
G_OutErr == Room /\ arr = <<>> /\ err = "none" /\ Len(h) > ErrBias /\ E_OutErr /\ \E k \in Kinds : Log([a |-> "OutErr", kind |-> k])
G_Close == Room /\ ~closed /\ arr = <<>> /\ err = "none" /\ Len(h) > ScriptLen - 6 /\ E_Close /\ Log([a |-> "Close"])
G_In == Room /\ ~closed /\ Len(arr) + Len(post) < 7 /\ \E n \in InLens : E_In("good", n) /\ Log([a |-> "In", kind |-> "good", len |-> n])
G_InOdd == Room /\ ~closed /\ err # "unknown" /\ Len(arr) + Len(post) < 7
           /\ \E k \in {"empty", "junk", "other"}, n \in {1, 5, 20} : E_In(k, n) /\ Log([a |-> "In", kind |-> k, len |-> n])
G_Stall == Room /\ ~closed /\ \E k \in {"stall", "unknown"} : E_InErr(k, TRUE) /\ Log([a |-> "InErr", kind |-> k])
G_Stall2 == G_Stall
G_Fatal == Room /\ ~closed /\ Len(h) > ErrBias /\ \E k \in Kinds : E_InErr(k, TRUE) /\ Log([a |-> "InErr", kind |-> k])
G_Clr == Room /\ ~closed /\ Len(h) > ErrBias /\ \E b \in BOOLEAN : b # clrf /\ E_Clr(b) /\ Log([a |-> "Clr", b |-> b])
G_Quiet == Room /\ h[Len(h)].a # "Quiet" /\ E_Quiet(Good(arr) \o (IF Recovers THEN Good(post) ELSE <<>>)) /\ Log([a |-> "Quiet"])
G_Quiet2 == G_Quiet
G_Fin == ~fin /\ (up = "err" \/ Len(h) >= ScriptLen) /\ fin' = TRUE
         /\ h' = (IF up = "err" THEN h ELSE Append(h, [a |-> "Quiet"])) /\ UNCHANGED vars
GInit == (\E c \in Cfgs : Init0(c)) /\ h = <<>> /\ fin = FALSE
GNext == G_Connect \/ G_Pub \/ G_PubFail \/ G_OutOk \/ G_OutOk2 \/ G_OutNone \/ G_OutErr \/ G_Close \/ G_In \/ G_InOdd \/ G_Stall
         \/ G_Stall2 \/ G_Fatal \/ G_Clr \/ G_Quiet \/ G_Quiet2 \/ G_Fin
GSpec == GInit /\ [][GNext]_gvars
Emit == fin => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, ev |-> h]))
\* long runs of errors: nothing but errors and rests, now and then a transfer
R_Next == G_Connect \/ G_Fin
          \/ (h # <<>> /\ h[Len(h)].a # "Quiet" /\ G_Quiet)
          \/ (h # <<>> /\ h[Len(h)].a \in {"Quiet", "Connect"} /\ G_Stall)
          \/ (h # <<>> /\ h[Len(h)].a \in {"Quiet", "InErr"} /\ Len(h) % 7 = 1 /\ (G_In \/ G_InOdd))
          \/ (closed /\ G_PubFail)
RSpec == GInit /\ [][R_Next]_gvars
=============================================================================
