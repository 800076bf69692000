------------------------------ MODULE UsbRxMC -------------------------------
EXTENDS UsbRx
CONSTANTS Cfgs, Lens, MaxFrames, MaxDis, Rel
VARIABLES hq,   \* packets of the host's current frame still to be sent
          fr,   \* lengths of the frames the host began, in order
          nd
mvars == <<vars, hq, fr, nd>>
Chunks(n) == [j \in 1..((n \div MaxPkt) + 1) |-> IF j <= n \div MaxPkt THEN MaxPkt ELSE n % MaxPkt]
FrameLens == Lens \cup {n \in {cfg.buf + d : d \in Rel} : n >= 0}
E1_Frame == hq = <<>> /\ ep /\ Len(fr) < MaxFrames
            /\ \E n \in FrameLens : hq' = Chunks(n) /\ fr' = Append(fr, n) /\ UNCHANGED <<vars, nd>>
E1_Pkt == hq # <<>> /\ E_Pkt(Len(fr), Head(hq)) /\ hq' = Tail(hq) /\ UNCHANGED <<fr, nd>>
E1_Recv == Len(results) < MaxFrames + 2 * MaxDis + 1 /\ E_Recv /\ UNCHANGED <<hq, fr, nd>>
E1_Disable == nd < MaxDis /\ E_Disable /\ nd' = nd + 1 /\ hq' = <<>> /\ UNCHANGED fr
E1_Enable == E_Enable /\ UNCHANGED <<hq, fr, nd>>
Env == E1_Frame \/ E1_Pkt \/ E1_Recv \/ E1_Disable \/ E1_Enable
Init == (\E c \in Cfgs : Init0(c)) /\ hq = <<>> /\ fr = <<>> /\ nd = 0
Next == Env \/ (Internal /\ UNCHANGED <<hq, fr, nd>>)
Spec == Init /\ [][Next]_mvars

NotClosed == SelectSeq(results, LAMBDA x : x.r # "closed")
OkOnes == SelectSeq(results, LAMBDA x : x.r = "ok")
Intact == /\ \A n \in 1..Len(OkOnes) : OkOnes[n].len = fr[OkOnes[n].f] /\ OkOnes[n].len <= cfg.buf
          /\ \A m, n \in 1..Len(OkOnes) : m < n => OkOnes[m].f < OkOnes[n].f
\* without disconnections every frame has its result, in its turn
InTurn == nd = 0 => \A n \in 1..Len(NotClosed) :
            IF fr[n] <= cfg.buf THEN NotClosed[n] = [r |-> "ok", f |-> n, len |-> fr[n]] ELSE NotClosed[n].r = "toolarge"
AllThere == (nd = 0 /\ Quiescent /\ recv /\ hq = <<>>) => Len(NotClosed) = Len(fr)
OnlyClosedWhenGone == [][(Len(results') > Len(results) /\ results'[Len(results')].r = "closed") => ~ep]_mvars
QuiescentIsRight == ~Quiescent => ENABLED Internal
=============================================================================
