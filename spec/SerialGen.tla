----------------------------- MODULE SerialGen ------------------------------
EXTENDS Serial, Json
CONSTANTS Cfgs, Lens, Cuts, ScriptLen
VARIABLES h
gvars == <<vars, h>>
Log(e) == h' = Append(h, e)
Room == Len(h) < ScriptLen /\ ~gone
Put(k, n) == E_Piece(k, n) /\ Log([a |-> "Piece", kind |-> k, len |-> n])
G_Good == Room /\ \E n \in Lens : Put("good", n)
G_Bad == Room /\ \E k \in {"short", "lost", "empty", "other", "long"}, n \in {0, 9, 50} : Put(k, n)
G_Write == Room /\ upto < Len(ps) /\ \E c \in Cuts : Log([a |-> "Write", n |-> c]) /\ UNCHANGED vars
G_Write2 == G_Write
G_Pub == Room /\ \E n \in Lens : E_Pub(n) /\ Log([a |-> "Pub", len |-> n])
G_Quiet == Room /\ h # <<>> /\ h[Len(h)].a # "Quiet" /\ E_Quiet /\ Log([a |-> "Quiet"])
G_Hangup == Len(h) >= ScriptLen - 2 /\ E_Hangup /\ Log([a |-> "Hangup"])
G_End == Len(h) >= ScriptLen - 1 /\ Len(h) < ScriptLen + 2 /\ Log([a |-> "Quiet"]) /\ UNCHANGED vars
GInit == (\E c \in Cfgs : Init0(c)) /\ h = <<>>
GNext == G_Good \/ G_Bad \/ G_Write \/ G_Write2 \/ G_Pub \/ G_Quiet \/ G_Hangup \/ G_End
GSpec == GInit /\ [][GNext]_gvars
Finished == Len(h) = ScriptLen
Emit == Finished => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, ev |-> h]))
=============================================================================
