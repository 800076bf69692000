------------------------------ MODULE ServerGen -----------------------------
EXTENDS ServerMC, Json
CONSTANT ScriptLen
VARIABLES h, go
gvars == <<mvars, h, go>>
Log(e) == /\ h' = Append(h, e) /\ \E n \in 1..3 : go' = (n > 1)
LastQuiet == IF h = <<>> THEN TRUE ELSE h[Len(h)].a = "Quiet"
Room == ~go /\ Len(h) < ScriptLen
NewF == hist'[Len(hist')]
RxLog == Log([a |-> "Rx", f |-> NewF])
Late == Len(h) > ScriptLen \div 3

G_Req == Room /\ E1_Req /\ RxLog
G_Good == Room /\ E1_Good /\ RxLog
G_Bad == Room /\ E1_Bad /\ RxLog
G_Garb == Room /\ E1_Garb /\ RxLog
G_RxErr == Room /\ E1_RxErr /\ RxLog
G_RxClosed == Room /\ Late /\ E1_RxClosed /\ RxLog
G_Plan == Room /\ E1_Plan /\ Log([a |-> "Plan", o |-> plan'[Len(plan')]])
G_PlanF == Room /\ Late /\ E1_PlanF /\ Log([a |-> "Plan", o |-> plan'[Len(plan')]])
G_NoSpawn == Room /\ E1_NoSpawn /\ Log([a |-> "NoSpawn"])
G_Free == Room /\ \E b \in Waiting \ free : E_Free(b) /\ Same /\ Log([a |-> "Free", b |-> b])
G_Free2 == G_Free
G_Pub == Room /\ E1_Pub /\ LET p == pubs'[Len(pubs')] IN Log([a |-> "Pub", sq |-> p.sq, sw |-> p.sw, v |-> p.v])
G_Run == Room /\ E1_Run /\ Log([a |-> "Run"])
G_Abort == Room /\ LastQuiet /\ Late /\ E1_Abort /\ h' = Append(h, [a |-> "Abort"]) /\ go' = TRUE
G_Step == go /\ ~Quiescent /\ Internal /\ Same /\ UNCHANGED <<h, go>>
G_Quiet == /\ IF go THEN Quiescent ELSE (~LastQuiet /\ Len(h) >= ScriptLen /\ Quiescent)
           /\ h' = Append(h, [a |-> "Quiet"]) /\ go' = FALSE /\ UNCHANGED mvars
G_Go == ~go /\ ~LastQuiet /\ go' = TRUE /\ UNCHANGED <<mvars, h>>

GInit == Init /\ h = <<>> /\ go = FALSE
GNext == \/ G_Step \/ G_Quiet \/ G_Go \/ G_Req \/ G_Good \/ G_Bad \/ G_Garb \/ G_RxErr \/ G_RxClosed \/ G_Plan \/ G_PlanF
         \/ G_NoSpawn \/ G_Free \/ G_Free2 \/ G_Pub \/ G_Run \/ G_Abort
GSpec == GInit /\ [][GNext]_gvars
Finished == Len(h) >= ScriptLen /\ LastQuiet /\ ~go
Emit == Finished => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, ev |-> h]))
=============================================================================
