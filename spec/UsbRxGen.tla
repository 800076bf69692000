------------------------------ MODULE UsbRxGen ------------------------------
EXTENDS UsbRxMC, Json
CONSTANT ScriptLen
VARIABLES h, go
gvars == <<mvars, h, go>>
Log(e) == /\ h' = Append(h, e) /\ \E n \in 1..3 : go' = (n = 1)
LogQ(e) == h' = Append(h, e) /\ go' = TRUE
LastQuiet == IF h = <<>> THEN TRUE ELSE h[Len(h)].a = "Quiet"
Room == ~go /\ Len(h) < ScriptLen
G_Pkt == Room /\ hq # <<>> /\ E1_Pkt /\ Log([a |-> "Pkt", f |-> Len(fr), len |-> Head(hq)])
G_Pkt2 == G_Pkt
G_Pkt3 == G_Pkt
G_Pkt4 == G_Pkt
G_Frame == Room /\ E1_Frame /\ UNCHANGED <<h, go>>
G_Frame2 == G_Frame
G_Recv == Room /\ E1_Recv /\ Log([a |-> "Recv"])
G_Recv2 == G_Recv
G_Disable == Room /\ Len(h) > ScriptLen \div 4 /\ E1_Disable /\ LogQ([a |-> "Disable"])
G_Enable == Room /\ E1_Enable /\ Log([a |-> "Enable"])
G_Step == go /\ ~Quiescent /\ (I_Read \/ I_Closed) /\ UNCHANGED <<hq, fr, nd, h, go>>
G_Quiet == /\ IF go THEN Quiescent ELSE (~LastQuiet /\ Len(h) >= ScriptLen /\ Quiescent)
           /\ h' = Append(h, [a |-> "Quiet"]) /\ go' = FALSE /\ UNCHANGED mvars
G_Go == ~go /\ ~LastQuiet /\ go' = TRUE /\ UNCHANGED <<mvars, h>>
GInit == Init /\ h = <<>> /\ go = FALSE
GNext == \/ G_Step \/ G_Quiet \/ G_Go \/ G_Pkt \/ G_Pkt2 \/ G_Pkt3 \/ G_Pkt4 \/ G_Frame \/ G_Frame2 \/ G_Recv \/ G_Recv2
         \/ G_Disable \/ G_Enable
GSpec == GInit /\ [][GNext]_gvars
Finished == Len(h) >= ScriptLen /\ LastQuiet /\ ~go
Emit == Finished => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, ev |-> h]))
=============================================================================
