------------------------------- MODULE LinkGen ------------------------------
EXTENDS LinkMC, Json
CONSTANT ScriptLen
VARIABLES h, go
gvars == <<mvars, h, go>>
LogQ(e) == h' = Append(h, e) /\ go' = TRUE
Log(e) == h' = Append(h, e) /\ \E b \in BOOLEAN : go' = b
LastQuiet == IF h = <<>> THEN TRUE ELSE h[Len(h)].a = "Quiet"
Room == ~go /\ Len(h) < ScriptLen
NewCall == LET c == calls'[Len(calls')] IN [a |-> "Call", n |-> c.n, m |-> c.m]
\* the host serialises a request at once, so what it knows must be settled
G_Call == Room /\ Quiescent /\ E1_Call /\ Log(NewCall)
G_Near == Room /\ Quiescent /\ E1_Near /\ Log(NewCall)
G_Near2 == G_Near
G_Out == Room /\ E1_Out /\ LogQ([a |-> "Out", k |-> given' - given])
G_In == Room /\ E1_In /\ LogQ([a |-> "In", k |-> given' - given])
G_Stall == Room /\ Quiescent /\ E1_Stall /\ LogQ([a |-> "Stall"])
G_Step == go /\ ~Quiescent /\ Internal /\ Same /\ UNCHANGED <<h, go>>
G_Quiet == /\ IF go THEN Quiescent ELSE (~LastQuiet /\ Len(h) >= ScriptLen /\ Quiescent)
           /\ h' = Append(h, [a |-> "Quiet"]) /\ go' = FALSE /\ UNCHANGED mvars
G_Go == ~go /\ ~LastQuiet /\ go' = TRUE /\ UNCHANGED <<mvars, h>>
GInit == Init /\ h = <<[a |-> "Connect"]>> /\ go = TRUE
GNext == \/ G_Step \/ G_Quiet \/ G_Go \/ G_Call \/ G_Near \/ G_Near2 \/ G_Out \/ G_In \/ G_Stall
GSpec == GInit /\ [][GNext]_gvars
Finished == Len(h) >= ScriptLen /\ LastQuiet /\ ~go
Emit == Finished => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, ev |-> h]))
=============================================================================
