------------------------------ MODULE UsbTxGen ------------------------------
EXTENDS UsbTxMC, Json
CONSTANT ScriptLen
VARIABLES h, go
gvars == <<mvars, h, go>>
Log(e) == /\ h' = Append(h, e) /\ \E n \in 1..3 : go' = (n > 1)
LogQ(e) == h' = Append(h, e) /\ go' = TRUE
LastQuiet == IF h = <<>> THEN TRUE ELSE h[Len(h)].a = "Quiet"
Room == ~go /\ Len(h) < ScriptLen
NewOp == LET o == ops'[Len(ops')] IN [a |-> "Start", kind |-> o.kind, len |-> o.len]
G_Start == Room /\ E1_Start /\ Log(NewOp)
G_Edge == Room /\ E1_Edge /\ Log(NewOp)
G_Tmo == Room /\ E1_Tmo /\ Log(NewOp)
G_Drop == Room /\ Has("drop") /\ \E i \in 1..Len(ops) : ops[i].kind # "tmo" /\ E_Drop(i) /\ Same /\ Log([a |-> "Drop", i |-> i])
G_Take == Room /\ E1_Take /\ LogQ([a |-> "Take"])
G_Take2 == G_Take
G_Take3 == G_Take
G_Slow == Room /\ E1_TakeSlow /\ LogQ([a |-> "Slow"])
G_Ack == Room /\ E1_Ack /\ LogQ([a |-> "Ack"])
G_Disable == Room /\ E1_Disable /\ Log([a |-> "Disable"])
G_Enable == Room /\ E1_Enable /\ Log([a |-> "Enable"])
G_Tick == Room /\ E1_Tick /\ LogQ([a |-> "Tick", n |-> now' - now])
G_Dead == Room /\ E1_Dead /\ LogQ([a |-> "Tick", n |-> now' - now])
G_Dead2 == G_Dead
G_Step == go /\ ~Quiescent /\ Internal /\ Same /\ UNCHANGED <<h, go>>
G_Quiet == /\ IF go THEN Quiescent ELSE (~LastQuiet /\ Len(h) >= ScriptLen /\ Quiescent)
           /\ h' = Append(h, [a |-> "Quiet"]) /\ go' = FALSE /\ UNCHANGED mvars
G_Go == ~go /\ ~LastQuiet /\ go' = TRUE /\ UNCHANGED <<mvars, h>>
GInit == Init /\ h = <<>> /\ go = FALSE
GNext == \/ G_Step \/ G_Quiet \/ G_Go \/ G_Start \/ G_Edge \/ G_Tmo \/ G_Drop \/ G_Take \/ G_Take2 \/ G_Take3
         \/ G_Slow \/ G_Ack \/ G_Disable \/ G_Enable \/ G_Tick \/ G_Dead \/ G_Dead2
GSpec == GInit /\ [][GNext]_gvars
Finished == Len(h) >= ScriptLen /\ LastQuiet /\ ~go
Emit == Finished => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, ev |-> h]))
=============================================================================
