------------------------------ MODULE ChanGen -------------------------------
EXTENDS ChanMC, Json
CONSTANT ScriptLen
VARIABLES h, go
gvars == <<mvars, h, go>>
Log(e) == h' = Append(h, e) /\ \E n \in 1..3 : go' = (n > 1)
LogQ(e) == h' = Append(h, e) /\ go' = TRUE
LastQuiet == IF h = <<>> THEN TRUE ELSE h[Len(h)].a = "Quiet"
Room == ~go /\ Len(h) < ScriptLen
Late == Len(h) > ScriptLen \div 2
G_Push == Room /\ E1_Push /\ Log([a |-> "Push", n |-> pushed'[Len(pushed')]])
G_Push2 == G_Push
G_Recv == Room /\ E1_Recv /\ Log([a |-> "Recv"])
G_Send == Room /\ E1_Send /\ Log([a |-> "Send", k |-> ops'[Len(ops')].k])
G_Cancel == Room /\ \E i \in 1..Len(ops) : E_Cancel(i) /\ Log([a |-> "Cancel", i |-> i])
G_Take == Room /\ LastQuiet /\ outq # <<>> /\ E_Take /\ LogQ([a |-> "Take"])
G_Take2 == G_Take
G_Take0 == Room /\ LastQuiet /\ E_Take /\ LogQ([a |-> "Take"])
G_DropIn == Room /\ Late /\ E_DropIn /\ Log([a |-> "DropIn"])
G_DropOut == Room /\ Late /\ E_DropOut /\ Log([a |-> "DropOut"])
G_Stop == Room /\ Late /\ E_Stop /\ Log([a |-> "Stop"])
G_Step == go /\ ~Quiescent /\ Internal /\ Hist /\ UNCHANGED <<h, go>>
G_Quiet == /\ IF go THEN Quiescent ELSE (~LastQuiet /\ Len(h) >= ScriptLen /\ Quiescent)
           /\ h' = Append(h, [a |-> "Quiet"]) /\ go' = FALSE /\ UNCHANGED mvars
G_Go == ~go /\ ~LastQuiet /\ go' = TRUE /\ UNCHANGED <<mvars, h>>
GInit == Init /\ h = <<>> /\ go = FALSE
GNext == \/ G_Step \/ G_Quiet \/ G_Go
         \/ (G_Push \/ G_Push2 \/ G_Recv \/ G_Send \/ G_Cancel \/ G_Take \/ G_Take2 \/ G_Take0 \/ G_DropIn \/ G_DropOut \/ G_Stop) /\ Hist
GSpec == GInit /\ [][GNext]_gvars
Finished == LastQuiet /\ ~go /\ Len(h) >= ScriptLen
Emit == Finished => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, ev |-> h]))
=============================================================================
