------------------------------ MODULE RpcTrace ------------------------------
EXTENDS Rpc, Json
CONSTANT TraceFile, Explain
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, ml, mg, seen, sseen
tvars == <<vars, tr, l, ml, mg, seen, sseen>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
Env(e) ==
  CASE e.a = "Op" -> E_Op(e.k)
    [] e.a = "SPub" -> E_SPub
    [] e.a = "Free" -> E_Free(e.i)
    [] e.a = "Gate" -> E_Gate(e.d, e.b)
    [] e.a = "Cancel" -> E_Cancel(e.i)
    [] e.a = "Stop" -> E_Stop
Since(s, m) == SubSeq(s, m + 1, Len(s))
Range(s) == {s[j] : j \in 1..Len(s)}
Done == {[i |-> i, r |-> ops[i].r, v |-> ops[i].v] : i \in {j \in 1..Len(ops) : ops[j].st = "done"}}
\* results and calls of spawned handlers have no order, but come once
Observed(e) ==
  /\ e.ok /\ e.ilog = Since(ilog, ml) /\ e.got = Since(got, mg)
  /\ Range(e.res) = Done \ seen /\ Len(e.res) = Cardinality(Done \ seen)
  /\ Range(e.slog) = slog \ sseen /\ Len(e.slog) = Cardinality(slog \ sseen)
  /\ e.closed = (run = "end")
\* what was observed can still become true
Fits(e) ==
  /\ Len(ilog) - ml <= Len(e.ilog) /\ Since(ilog, ml) = SubSeq(e.ilog, 1, Len(ilog) - ml)
  /\ Len(got) - mg <= Len(e.got) /\ Since(got, mg) = SubSeq(e.got, 1, Len(got) - mg)
  /\ (Done \ seen) \subseteq Range(e.res)
FitsNow == Fits(Ev)
TInit == \E n \in 1..Len(Traces) :
  /\ tr = n /\ l = 1 /\ ml = 0 /\ mg = 0 /\ seen = {} /\ sseen = {} /\ Init0(Traces[n].cfg)
TNext ==
  /\ More
  /\ IF Ev.a # "Quiet" THEN Env(Ev) /\ l' = l + 1 /\ UNCHANGED <<tr, ml, mg, seen, sseen>>
     ELSE \/ /\ (Quiescent = TRUE) /\ Observed(Ev) /\ l' = l + 1
             /\ ml' = Len(ilog) /\ mg' = Len(got) /\ seen' = Done /\ sseen' = slog /\ UNCHANGED <<vars, tr>>
          \/ Internal /\ UNCHANGED <<tr, l, ml, mg, seen, sseen>> /\ FitsNow'
TSpec == TInit /\ [][TNext]_tvars
Report ==
  /\ (~More) => PrintT(<<"ACCEPTED", Traces[tr].id>>)
  /\ (Explain /\ More /\ Ev.a = "Quiet" /\ Quiescent) =>
        PrintT(<<"AT", l, Since(ilog, ml), slog \ sseen, Done \ seen, Since(got, mg), run>>)
=============================================================================
