------------------------------- MODULE LinkMC -------------------------------
EXTENDS Link
CONSTANTS Cfgs, Ns, Ms, Ks, NearR, NearP, MaxCalls, MaxCred, MaxStall
VARIABLES given, stalls
mvars == <<vars, given, stalls>>
Same == UNCHANGED <<given, stalls>>
Init == (\E k \in Cfgs : Init0(k)) /\ given = 0 /\ stalls = 0
CanCall == Len(calls) < MaxCalls /\ Len(calls) - Len(done) < 12
E1_Call == CanCall /\ (\E n \in Ns, m \in Ms : E_Call(n, m)) /\ Same
\* frames just around a whole number of packets, or around a whole transfer
E1_Near == CanCall /\ (\E p \in NearP, q \in NearP, a \in NearR, b \in NearR :
               LET n == 64 * p + a - ReqLen(0) m == 64 * q + b - RepLen(0) IN
               n >= 4 /\ m >= 1 /\ E_Call(n, m)) /\ Same
E1_Out == (\E k \in Ks : given + k <= MaxCred /\ given' = given + k /\ E_Out(k)) /\ UNCHANGED stalls
E1_In == (\E k \in Ks : given + k <= MaxCred /\ given' = given + k /\ E_In(k)) /\ UNCHANGED stalls
E1_Stall == stalls < MaxStall /\ stalls' = stalls + 1 /\ E_Stall(part = 0) /\ UNCHANGED given
MNext == E1_Call \/ E1_Near \/ E1_Out \/ E1_In \/ E1_Stall \/ (Internal /\ Same)
Spec == Init /\ [][MNext]_mvars
\* done and seen only grow
Grows == [][IsPrefix(seen, seen') /\ IsPrefix(done, done')]_vars
QuiescentIsRight == Quiescent = ~ENABLED Internal
=============================================================================
