---------------------------- MODULE HostClientGen ---------------------------
(* Generates behaviours of HostClientMC as scripts of environment events.   *)
EXTENDS HostClientMC, Json
CONSTANT ScriptLen
VARIABLES h, run     \* script so far; is the client running to quiescence?
gvars == <<vars, h, run>>
\* one event in three is followed by another one before the client runs
Log(e) == /\ h' = Append(h, e)
          /\ \E n \in 1..3 : run' = (n > 1 \/ e.a = "Tick")
Last(s) == s[Len(s)]
NewOp == ops'[Len(ops')]
NewF == inq'[Len(inq')]
LastQuiet == IF h = <<>> THEN TRUE ELSE Last(h).a = "Quiet"
Room == ~run /\ Len(h) < ScriptLen

G_Call   == Room /\ E1_Call /\ Log([a |-> "Call", e |-> NewOp.e])
G_Raw    == Room /\ E1_Raw /\ Log([a |-> "CallRaw", e |-> NewOp.e, sq |-> NewOp.sq])
G_Pub    == Room /\ E1_Pub /\ Log([a |-> "Pub", t |-> NewOp.top, sq |-> NewOp.sq, sw |-> NewOp.sw])
G_Wait   == Room /\ E1_Wait /\ Log([a |-> "Wait"])
G_Cancel == Room /\ "cancel" \in Acts /\ \E i \in 1..Len(ops) : E_Cancel(i) /\ Log([a |-> "Cancel", i |-> i])
G_Clone  == Room /\ E1_Clone /\ Log([a |-> "Clone"])
G_Drop   == Room /\ (E1_Drop \/ E1_Drop1) /\ Log([a |-> "Drop"])
G_Close  == Room /\ Len(h) > ScriptLen \div 2 /\ E1_Close /\ Log([a |-> "Close"])
\* few subscribers, so that there is time to read all they have
MaySub == "few" \notin Acts \/ Cardinality({i \in 1..Len(ops) : ops[i].t = "sub"}) < 2
G_Sub    == /\ Room /\ MaySub /\ (E1_SubX \/ E1_SubL \/ E1_SubB \/ E1_SubB2)
            /\ Log([a |-> "Sub", mode |-> NewOp.mode, t |-> NewOp.top, depth |-> NewOp.depth, raw |-> NewOp.raw])
G_Recv   == Room /\ E1_Recv /\ Log([a |-> "Recv", s |-> NewOp.s])
G_DropSub == Room /\ "dropsub" \in Acts /\ \E s \in DOMAIN subs : E_DropSub(s) /\ Log([a |-> "DropSub", s |-> s])
RxLog == Log([a |-> "Rx", f |-> NewF])
G_RxMatch == Room /\ E1_RxMatch /\ RxLog
G_RxError == Room /\ (E1_RxError \/ E1_RxBad) /\ RxLog
G_RxStray == Room /\ E1_RxStray /\ RxLog
G_RxTopic == Room /\ E1_RxTopic /\ RxLog
G_RxTopic2 == Room /\ E1_RxTopic /\ RxLog
\* many messages of one topic at once, for deep queues
Many(t, w, n) == [j \in 1..n |-> Frame(TopK(t), w, NRx + j - 1, 2, NRx + j + 9)]
G_RxMany == /\ Room /\ "fill" \in Acts /\ \E i \in DOMAIN subs : subs[i].alive
            /\ \E t \in Top, w \in RxW, n \in {20, 63, 64, 65, 110} :
                 /\ NRx + n <= MaxRx /\ E_RxMany(Many(t, w, n))
                 /\ h' = h \o [j \in 1..n |-> [a |-> "Rx", f |-> Many(t, w, n)[j]]] /\ run' = TRUE
G_RxTopicBad == Room /\ E1_RxTopicBad /\ RxLog
G_RxGarbage == Room /\ E1_RxGarbage /\ RxLog
G_RxWireErr == Room /\ Len(h) > ScriptLen \div 2 /\ E1_RxWireErr /\ RxLog
G_TxOk   == Room /\ E1_TxOk /\ Log([a |-> "TxOk"])
G_TxErr  == Room /\ Len(h) > ScriptLen \div 2 /\ E1_TxErr /\ Log([a |-> "TxErr"])
G_Tick   == Room /\ LastQuiet /\ E1_Tick /\ Log([a |-> "Tick"])
G_Loop  == Room /\ LastQuiet /\ E1_Loop /\ Log([a |-> "Loop", n |-> nseq' - nseq])
G_Step  == run /\ ~Quiescent /\ Internal /\ UNCHANGED <<h, run>>
G_Quiet == /\ IF run THEN Quiescent ELSE (~LastQuiet /\ Len(h) >= ScriptLen /\ Quiescent)
           /\ h' = Append(h, [a |-> "Quiet"]) /\ run' = FALSE /\ UNCHANGED vars
G_Go    == ~run /\ ~LastQuiet /\ run' = TRUE /\ UNCHANGED <<vars, h>>

GInit == Init /\ h = <<>> /\ run = FALSE
GNext == \/ G_Step \/ G_Quiet \/ G_Go
         \/ G_Call \/ G_Raw \/ G_Pub \/ G_Wait \/ G_Cancel \/ G_Clone \/ G_Drop \/ G_Close \/ G_Sub
         \/ G_Recv \/ G_DropSub \/ G_RxMatch \/ G_RxError \/ G_RxStray \/ G_RxTopic \/ G_RxTopic2 \/ G_RxMany
         \/ G_RxTopicBad \/ G_RxGarbage \/ G_RxWireErr \/ G_TxOk \/ G_TxErr \/ G_Tick \/ G_Loop
GSpec == GInit /\ [][GNext]_gvars

\* the script is full, or the client has closed and nothing is left to try
Finished == LastQuiet /\ ~run /\ (Len(h) >= ScriptLen \/ (closed /\ ~ENABLED GNext))
Emit == Finished => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, ev |-> h]))
=============================================================================
