---------------------------- MODULE HostClientMC ----------------------------
(* Bounded environment for HostClient: used for exhaustive checking and,    *)
(* through HostClientGen, for generating behaviours to replay.             *)
EXTENDS HostClient
CONSTANTS Acts,      \* which environment actions this profile uses
          MaxOps, MaxRx, MaxHandles, Cfgs, Seqs, RxW, Depths, Top

InFlight == CallsInFlight
NRx == Len(proc) + Len(inq)
More == Len(ops) < MaxOps
MoreRx == NRx < MaxRx

Bodies == {NRx + 10}            \* every inbound frame carries its own value
SW == cfg.sw

E1_Call   == "call" \in Acts /\ More /\ \E e \in Endpoints : E_Call(e)
E1_Raw    == "raw" \in Acts /\ More /\ \E e \in Endpoints, q \in Seqs : E_CallRaw(e, q)
E1_Pub    == "pub" \in Acts /\ More /\ \E t \in Top, w \in {1, 4} : E_Pub(t, 30 + Len(ops), w)
E1_Wait   == "wait" \in Acts /\ More /\ E_Wait
E1_Cancel == "cancel" \in Acts /\ \E i \in 1..Len(ops) : E_Cancel(i)
E1_Clone  == "clone" \in Acts /\ handles < MaxHandles /\ E_Clone
E1_Drop   == "drop" \in Acts /\ E_Drop
E1_Drop1  == "drop1" \in Acts /\ handles > 1 /\ E_Drop
E1_Close  == "close" \in Acts /\ ~closed /\ E_Close
E1_SubX   == "subx" \in Acts /\ More /\ \E t \in Top, d \in Depths, r \in BOOLEAN : E_Sub("x", t, d, r)
E1_SubL   == "subl" \in Acts /\ More /\ \E t \in Top, d \in Depths, r \in BOOLEAN : E_Sub("l", t, d, r)
\* one capacity per topic, so that it does not matter who creates the channel
E1_SubB   == "subb" \in Acts /\ More /\ \E t \in Top, r \in BOOLEAN : E_Sub("b", t, cfg.bcap * t, r)
\* a new channel of another size, where there is none
E1_SubB2  == "subb2" \in Acts /\ More /\ \E t \in Top, r \in BOOLEAN :
                IF chan[t] = 0 THEN \E d \in Depths : E_Sub("b", t, d, r) ELSE E_Sub("b", t, chans[chan[t]].cap, r)
E1_Recv   == "recv" \in Acts /\ More /\ \E s \in DOMAIN subs : E_Recv(s)
E1_DropSub == "dropsub" \in Acts /\ \E s \in DOMAIN subs : E_DropSub(s)
E1_RxMatch == "rxmatch" \in Acts /\ MoreRx /\ \E i \in InFlight, w \in RxW, b \in Bodies :
                E_Rx(Frame(RespK(ops[i].e), w, ops[i].sq, SW, b))
E1_RxError == "rxerror" \in Acts /\ MoreRx /\ \E i \in InFlight, w \in RxW, b \in Bodies :
                E_Rx(Frame(ErrK, w, ops[i].sq, SW, b))
E1_RxBad  == "rxbad" \in Acts /\ MoreRx /\ \E i \in InFlight, w \in RxW :
                \E k \in {RespK(ops[i].e), ErrK} : E_Rx(Frame(k, w, ops[i].sq, SW, Bad))
\* a response with any endpoint's key and any plausible number: stale, foreign, duplicate, early
E1_RxStray == "rxstray" \in Acts /\ MoreRx /\ \E w \in RxW, b \in Bodies,
                 q \in Seqs \cup {ops[i].sq : i \in {j \in 1..Len(ops) : ops[j].t = "call"}},
                 k \in {RespK(1), RespK(2), ReqK(1), ErrK, ForeignK} :
                E_Rx(Frame(k, w, q % SeqMod(SW), SW, b))
E1_RxTopic == "rxtopic" \in Acts /\ MoreRx /\ \E t \in Top, w \in RxW, b \in Bodies :
                E_Rx(Frame(TopK(t), w, NRx, 2, b))
E1_RxTopicBad == "rxtopicbad" \in Acts /\ MoreRx /\ \E t \in Top, w \in RxW :
                E_Rx(Frame(TopK(t), w, NRx, 2, Bad))
E1_RxGarbage == "garbage" \in Acts /\ MoreRx /\ \E g \in 1..6 : E_Rx(Frame(Garbage, 0, 0, 0, g))
E1_RxWireErr == "wireerr" \in Acts /\ MoreRx /\ E_Rx(Frame(RxErr, 0, 0, 0, 0))
E1_TxOk   == E_TxOk
E1_TxErr  == "txerr" \in Acts /\ E_TxErr
E1_Tick   == "tick" \in Acts /\ Quiescent /\ held # <<>> /\ E_Tick

Loops == IF cfg.sw = 1 THEN {100, 252, 253, 254, 255, 256} ELSE IF cfg.sw = 2 THEN {65534, 65535, 65536} ELSE {300, 70000}
E1_Loop == "loop" \in Acts /\ nseq < 70000 /\ \E n \in Loops : E_Loop(n)

Env == \/ E1_Loop \/ E1_Call \/ E1_Raw \/ E1_Pub \/ E1_Wait \/ E1_Cancel \/ E1_Clone \/ E1_Drop \/ E1_Drop1
       \/ E1_Close \/ E1_SubX \/ E1_SubL \/ E1_SubB \/ E1_SubB2 \/ E1_Recv \/ E1_DropSub
       \/ E1_RxMatch \/ E1_RxError \/ E1_RxBad \/ E1_RxStray \/ E1_RxTopic \/ E1_RxTopicBad
       \/ E1_RxGarbage \/ E1_RxWireErr \/ E1_TxOk \/ E1_TxErr \/ E1_Tick

Init == \E c \in Cfgs : Init0(c)
Next == Env \/ Internal
Spec == Init /\ [][Next]_vars

\* Liveness: what the client owes is eventually done (fairness of its own steps only).
FairSpec == Spec /\ WF_vars(Internal)
EventuallyQuiet == []<>(Quiescent \/ ENABLED Env)
ClosedCompletes == closed ~> (inDone /\ outDone /\
                     \A i \in 1..Len(ops) : ops[i].t \in {"call", "pub", "wait", "sub"} => ~Live(ops[i]))
AnsweredCompletes == \A i \in 1..MaxOps : (i \in 1..Len(ops) /\ ops[i].t = "call" /\ Answered(i))
                        ~> (i \in 1..Len(ops) /\ (~Live(ops[i]) \/ ops[i].st = "blk"))
\* the declared notion of quiescence agrees with the steps
QuiescentIsRight == Quiescent => ~ENABLED (Internal /\ ~(UNCHANGED ops /\ UNCHANGED subs) /\ held = <<>>)
=============================================================================
