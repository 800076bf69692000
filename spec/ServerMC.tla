------------------------------ MODULE ServerMC ------------------------------
(* Bounded environment of the server.                                      *)
EXTENDS Server
CONSTANTS Acts, Cfgs, MaxRx, MaxPlan, MaxPub, MaxRun, Keys, Ws, SWs
VARIABLES hist, np, nr    \* delivered frames; sends planned; restarts
mvars == <<vars, hist, np, nr>>

\* numbers differ between all frames of a behaviour, also modulo their width
SeqOf(n, sw) == CASE sw = 1 -> 250 - n [] sw = 2 -> 65535 - n [] OTHER -> 2147483647 - n
NRx == Len(hist)
Body == NRx + 10
MoreRx == NRx < MaxRx
Rx(f) == E_Rx(f) /\ hist' = Append(hist, f) /\ UNCHANGED <<np, nr>>
Same == UNCHANGED <<hist, np, nr>>

E1_Req == "req" \in Acts /\ MoreRx /\ \E k \in Keys, w \in Ws, sw \in SWs :
             Rx(Frame(k, w, SeqOf(NRx, sw), sw, Body))
\* requests at a length the server accepts, so that handlers get their share
E1_Good == "good" \in Acts /\ MoreRx /\ \E k \in Keys, w \in {x \in Ws : x >= cfg.n}, sw \in SWs :
             Rx(Frame(k, w, SeqOf(NRx, sw), sw, Body))
E1_Bad == "bad" \in Acts /\ MoreRx /\ \E k \in Keys, w \in Ws, sw \in SWs :
             Rx(Frame(k, w, SeqOf(NRx, sw), sw, Bad))
E1_Garb == "garbage" \in Acts /\ MoreRx /\ \E g \in 1..6 : Rx(Frame(Garbage, 0, 0, 0, g))
E1_RxErr == "rxerr" \in Acts /\ MoreRx /\ \E k \in {RxTooLarge, RxOther} : Rx(Frame(k, 0, 0, 0, 0))
E1_RxClosed == "rxclosed" \in Acts /\ MoreRx /\ Rx(Frame(RxClosed, 0, 0, 0, 0))
E1_Plan == "plan" \in Acts /\ np < MaxPlan /\ np' = np + 1 /\ UNCHANGED <<hist, nr>>
           /\ \E o \in {"ok", "other"} : E_Plan(o)
E1_PlanF == "planf" \in Acts /\ np < MaxPlan /\ np' = np + 1 /\ UNCHANGED <<hist, nr>>
           /\ \E o \in {"closed", "timeout"} : E_Plan(o)
E1_NoSpawn == "nospawn" \in Acts /\ nospawn < 1 /\ E_NoSpawn /\ Same
Waiting == {tasks[i].f.b : i \in {j \in 1..Len(tasks) : tasks[j].st = "wait"}}
           \cup (IF cur # <<>> THEN IF cur[1].st = "wait" THEN {cur[1].f.b} ELSE {} ELSE {})
E1_Free == \E b \in Waiting \ free : E_Free(b) /\ Same
E1_Pub == "pub" \in Acts /\ Len(pubs) < MaxPub /\ \E sw \in SWs : E_Pub(100 + Len(pubs), sw, 40 + Len(pubs)) /\ Same
E1_Run == nr < MaxRun /\ E_Run /\ nr' = nr + 1 /\ UNCHANGED <<hist, np>>
E1_Abort == "abort" \in Acts /\ E_Abort /\ Same

Env == \/ E1_Req \/ E1_Good \/ E1_Bad \/ E1_Garb \/ E1_RxErr \/ E1_RxClosed \/ E1_Plan \/ E1_PlanF \/ E1_NoSpawn
       \/ E1_Free \/ E1_Pub \/ E1_Run \/ E1_Abort
Init == (\E c \in Cfgs : Init0(c)) /\ hist = <<>> /\ np = 0 /\ nr = 0
Next == Env \/ (Internal /\ Same)
Spec == Init /\ [][Next]_mvars

OneAnswerI == OneAnswer(hist)
CalledInOrderI == CalledInOrder(hist)
AllAnsweredI == AllAnswered(hist)
QuiescentIsRight == Quiescent <=> ~ENABLED Internal
=============================================================================
