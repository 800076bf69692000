------------------------------- MODULE LogGen -------------------------------
EXTENDS LogMC, Json
CONSTANT ScriptLen
VARIABLES h, pick   \* pick: what is to be logged next, chosen in steps
gvars == <<mvars, h, pick>>
Q == [a |-> "Quiet"]
LastQuiet == IF h = <<>> THEN TRUE ELSE h[Len(h)].a = "Quiet"
Room0 == Len(h) < ScriptLen /\ pick = <<>>
Rec(p) == LET o == ops'[Len(ops')] IN
  h' = Append(h, [a |-> "Log", kind |-> o.kind, w |-> o.w, n |-> o.n, pat |-> o.pat, p |-> p])
\* what the operations do is left to the code: here they are forgotten
Drain == pick = <<>> /\ open # {} /\ open' = {} /\ h' = Append(h, Q) /\ UNCHANGED <<cfg, ep, ops, next, out, nd, pick>>
G_Kind == Room0 /\ \E k \in Kinds \ {"send", "many"} : pick' = <<k>> /\ UNCHANGED <<mvars, h>>
G_Width == Len(pick) = 1 /\ \E w \in Ws : pick' = Append(pick, w) /\ UNCHANGED <<mvars, h>>
G_Pat == Len(pick) = 2 /\ \E t \in Pats : pick' = Append(pick, t) /\ UNCHANGED <<mvars, h>>
G_Start == /\ Len(pick) = 3 /\ pick' = <<>> /\ UNCHANGED nd
           /\ \E n \in Ns \cup NearFull(pick[2], pick[3]), p \in {0, 1, 3, 7, 64} :
                E_Start(pick[1], pick[2], n, pick[3]) /\ Rec(p)
G_Send == Room0 /\ E1_Send /\ Rec(0) /\ UNCHANGED pick
G_Many == Room0 /\ E1_Many /\ Rec(0) /\ UNCHANGED pick
G_Disable == Room0 /\ E1_Disable /\ h' = Append(h, [a |-> "Disable"]) /\ UNCHANGED pick
G_Enable == Room0 /\ E1_Enable /\ h' = Append(h, [a |-> "Enable"]) /\ UNCHANGED pick
GInit == Init /\ h = <<>> /\ pick = <<>>
GNext == G_Kind \/ G_Width \/ G_Pat \/ G_Start \/ G_Send \/ Drain \/ G_Many \/ G_Disable \/ G_Enable
GSpec == GInit /\ [][GNext]_gvars
Finished == Len(h) >= ScriptLen /\ LastQuiet
Emit == Finished => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, ev |-> h]))
=============================================================================
