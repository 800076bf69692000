------------------------------- MODULE LogMC --------------------------------
EXTENDS Log
CONSTANTS Cfgs, Kinds, Ws, Ns, Pats, MaxOps, MaxDis, Manys, Rel
VARIABLE nd
mvars == <<vars, nd>>
\* also as many characters as about fill the buffer
NearFull(w, pat) == LET t == ((cfg.buf - 3 - w) * Len(pat)) \div Sum(pat) IN {n \in {t + d : d \in Rel} : n >= 0}
E1_Start == Len(ops) < MaxOps /\ \E k \in Kinds \ {"send", "many"}, w \in Ws, pat \in Pats :
              \E n \in Ns \cup NearFull(w, pat) : E_Start(k, w, n, pat) /\ UNCHANGED nd
E1_Send == "send" \in Kinds /\ Len(ops) < MaxOps
           /\ \E n \in {x \in {12, 64, 128, cfg.buf - 1, cfg.buf, cfg.buf + 1} : x >= 3} : E_Start("send", 1, n, <<1>>) /\ UNCHANGED nd
E1_Many == "many" \in Kinds /\ Len(ops) < MaxOps /\ open = {} /\ ep /\ cfg.buf >= 20
           /\ \E n \in Manys : E_Start("many", 1, n, <<1>>) /\ UNCHANGED nd
E1_Disable == nd < MaxDis /\ open = {} /\ E_Disable /\ nd' = nd + 1
E1_Enable == E_Enable /\ open = {} /\ UNCHANGED nd
Env == E1_Start \/ E1_Send \/ E1_Many \/ E1_Disable \/ E1_Enable
Do(i) == \E r \in {"ok", "closed", "other"}, sh \in {"none", "full", "cut", "bare"}, s \in {0, next} :
           \E m \in 0..(IF ops[i].kind \in {"send", "many"} THEN 0 ELSE ops[i].n) :
             I_Do(i, r, sh, m, s)
Internal == \E i \in open : Do(i) /\ UNCHANGED nd
Init == (\E c \in Cfgs : Init0(c)) /\ nd = 0
Next == Env \/ Internal
Spec == Init /\ [][Next]_mvars

\* whatever happens, every operation can end
NeverStuck == \A i \in open : ENABLED Do(i)
LogsOk == SelectSeq(out, LAMBDA x : x.r = "ok" /\ ops[x.i].kind \in {"str", "fmt"})
FitsBuffer == \A n \in 1..Len(LogsOk) :
  LET o == ops[LogsOk[n].i]
      k == Bytes(o.pat, LogsOk[n].m) + (IF LogsOk[n].sh = "cut" THEN 3 ELSE 0) IN Hdr(o) + V(k) + k <= cfg.buf
\* a text that fits with room to spare is never cut
NotCutForNothing == \A n \in 1..Len(LogsOk) :
  LET o == ops[LogsOk[n].i] IN LogsOk[n].sh # "full" => Hdr(o) + 3 + Bytes(o.pat, o.n) > cfg.buf
FirstIsZero == (Len(out) > 0 /\ out[1].r = "ok") => out[1].seq = 0
Consecutive == \A n \in 1..(Len(out) - 1) :
  (/\ out[n].r = "ok" /\ out[n + 1].r = "ok" /\ Numbered(ops[out[n].i]) /\ Numbered(ops[out[n + 1].i])) =>
     out[n + 1].seq = (out[n].seq + Count(ops[out[n].i])) % cfg.wrap
=============================================================================
