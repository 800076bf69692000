------------------------------- MODULE RpcGen -------------------------------
EXTENDS RpcMC, Json
CONSTANTS ScriptLen, Burst
VARIABLES h, go
gvars == <<mvars, h, go>>
Log(e) == /\ h' = Append(h, e) /\ \E n \in 1..3 : go' = (n > 2)
LastQuiet == IF h = <<>> THEN TRUE ELSE h[Len(h)].a = "Quiet"
Room1 == ~go /\ Len(h) < ScriptLen /\ run = "on"
Fresh == Cardinality({i \in 1..Len(ops) : ops[i].st = "new"})
G_Op == Room1 /\ Fresh < Burst /\ E1_Op /\ Log([a |-> "Op", k |-> ops'[Len(ops')].k])
G_Op2 == G_Op
G_Op3 == G_Op
G_SPub == Room1 /\ E1_SPub /\ Log([a |-> "SPub"])
G_Free == Room1 /\ (\E i \in Holding \ free : E_Free(i) /\ Log([a |-> "Free", i |-> i])) /\ Same
G_Free2 == G_Free
\* gates, cancellations and stopping come at quiet points and on their own
Alone == ~go /\ LastQuiet /\ h # <<>> /\ Len(h) < ScriptLen /\ run = "on"
Then(e) == h' = Append(h, e) /\ go' = TRUE
G_Gate == Alone /\ \E d \in {"up", "down"} : LET x == IF d = "up" THEN ~gu ELSE ~gd IN
  b.gate < MaxGate /\ E_Gate(d, x) /\ b' = [b EXCEPT !.gate = @ + 1] /\ Then([a |-> "Gate", d |-> d, b |-> x])
G_Cancel == Alone /\ b.cancel < MaxCancel /\ b' = [b EXCEPT !.cancel = @ + 1]
  /\ \E i \in 1..Len(ops) : IsCall(ops[i].k) /\ ~Over(i) /\ E_Cancel(i) /\ Then([a |-> "Cancel", i |-> i])
G_Stop == Alone /\ Stops /\ Len(h) > ScriptLen \div 2 /\ E_Stop /\ Then([a |-> "Stop"]) /\ Same
G_After == run = "end" /\ ~go /\ Fresh < Burst /\ Len(h) < ScriptLen /\ (\E k \in Kinds : E_Op(k) /\ Log([a |-> "Op", k |-> k])) /\ Same
G_Step == go /\ Quiescent = FALSE /\ Internal /\ Same /\ UNCHANGED <<h, go>>
G_Quiet == go /\ (Quiescent = TRUE) /\ h' = Append(h, [a |-> "Quiet"]) /\ go' = FALSE /\ UNCHANGED mvars
G_Go == ~go /\ ~LastQuiet /\ go' = TRUE /\ UNCHANGED <<mvars, h>>
GInit == Init /\ h = <<>> /\ go = FALSE
GNext == G_Step \/ G_Quiet \/ G_Go \/ G_Op \/ G_Op2 \/ G_Op3 \/ G_SPub \/ G_Free \/ G_Free2 \/ G_Gate \/ G_Cancel \/ G_Stop \/ G_After
GSpec == GInit /\ [][GNext]_gvars
Finished == Len(h) >= ScriptLen /\ LastQuiet /\ ~go
Emit == Finished => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, ev |-> h]))
=============================================================================
