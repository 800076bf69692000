----------------------------- MODULE ServerTrace ----------------------------
(* Are the recorded server executions behaviours of Server?                *)
EXTENDS Server, Json
CONSTANT TraceFile, Explain
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, ms, ml, mr
tvars == <<vars, tr, l, ms, ml, mr>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
Env(e) ==
  CASE e.a = "Rx" -> E_Rx(e.f)
    [] e.a = "Plan" -> E_Plan(e.o)
    [] e.a = "NoSpawn" -> E_NoSpawn
    [] e.a = "Free" -> E_Free(e.b)
    [] e.a = "Pub" -> E_Pub(e.sq, e.sw, e.v)
    [] e.a = "Run" -> E_Run
    [] e.a = "Abort" -> E_Abort
Since(s, m) == SubSeq(s, m + 1, Len(s))
Observed(e) ==
  /\ e.ok
  /\ e.sent = Since(sent, ms) /\ e.log = Since(log, ml) /\ e.results = Since(results, mr)
  /\ e.on = (run = "on")
TInit == \E n \in 1..Len(Traces) :
  /\ tr = n /\ l = 1 /\ ms = 0 /\ ml = 0 /\ mr = 0 /\ Init0(Traces[n].cfg)
TNext ==
  /\ More
  /\ IF Ev.a # "Quiet" THEN Env(Ev) /\ l' = l + 1 /\ UNCHANGED <<tr, ms, ml, mr>>
     ELSE \/ /\ Quiescent /\ Observed(Ev) /\ l' = l + 1
             /\ ms' = Len(sent) /\ ml' = Len(log) /\ mr' = Len(results) /\ UNCHANGED <<vars, tr>>
          \/ Internal /\ UNCHANGED <<tr, l, ms, ml, mr>>
TSpec == TInit /\ [][TNext]_tvars
Report ==
  /\ (~More) => PrintT(<<"ACCEPTED", Traces[tr].id>>)
  /\ (Explain /\ More /\ Ev.a = "Quiet" /\ Quiescent) =>
        PrintT(<<"AT", l, Since(sent, ms), Since(log, ml), Since(results, mr), run>>)
=============================================================================
