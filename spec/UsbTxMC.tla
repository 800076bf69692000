------------------------------ MODULE UsbTxMC -------------------------------
(* Bounded environment of the USB transmitter.                             *)
EXTENDS UsbTx
CONSTANTS Cfgs, Kinds, Lens, Ticks, MaxOps, MaxTicks, MaxDis, Acts
VARIABLES nt, nd
mvars == <<vars, nt, nd>>
Same == UNCHANGED <<nt, nd>>
Has(a) == a \in Acts

E1_Start == Len(ops) < MaxOps /\ \E k \in Kinds, n \in Lens : (k # "raw" => n > 0) /\ E_Start(k, n) /\ Same
E1_Edge == Has("edge") /\ Len(ops) < MaxOps /\ \E d \in -1..1, k \in Kinds : E_Start(k, cfg.buf + d) /\ Same
E1_Tmo == Has("tmo") /\ cfg.v = 4 /\ Len(ops) < MaxOps /\ \E n \in {0, 1, 3, 7, 100, 60000, 70000} : E_Start("tmo", n) /\ Same
E1_Drop == Has("drop") /\ \E i \in 1..Len(ops) : ops[i].kind # "tmo" /\ E_Drop(i) /\ Same
E1_Take == E_Take("acked") /\ Same
E1_TakeSlow == Has("slow") /\ E_Take("taken") /\ Same
E1_Ack == E_Ack /\ Same
E1_Disable == Has("dis") /\ nd < MaxDis /\ E_Disable /\ nd' = nd + 1 /\ UNCHANGED nt
E1_Enable == E_Enable /\ Same
E1_Tick == nt < MaxTicks /\ \E n \in Ticks : E_Tick(n) /\ nt' = nt + 1 /\ UNCHANGED nd

\* the clock moves up to the deadline of the send in progress, or just before or after it
E1_Dead == Has("dead") /\ nt < MaxTicks /\ holder # 0 /\ \E d \in -1..1 :
             LET n == ops[holder].dl - now + d IN n > 0 /\ E_Tick(n) /\ nt' = nt + 1 /\ UNCHANGED nd

Env == E1_Dead \/ E1_Start \/ E1_Edge \/ E1_Tmo \/ E1_Drop \/ E1_Take \/ E1_TakeSlow \/ E1_Ack \/ E1_Disable \/ E1_Enable \/ E1_Tick
Init == (\E c \in Cfgs : Init0(c)) /\ nt = 0 /\ nd = 0
Next == Env \/ (Internal /\ Same)
Spec == Init /\ [][Next]_mvars
QuiescentIsRight == Quiescent <=> ~ENABLED Internal
=============================================================================
