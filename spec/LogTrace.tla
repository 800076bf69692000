------------------------------ MODULE LogTrace ------------------------------
(* Are the recorded executions of the device's logging behaviours of Log?  *)
EXTENDS Log, Json
CONSTANT TraceFile, Explain
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, k
tvars == <<vars, tr, l, k>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
Env(e) ==
  CASE e.a = "Log" -> E_Start(e.kind, e.w, e.n, e.pat)
    [] e.a = "Disable" -> E_Disable
    [] e.a = "Enable" -> E_Enable
TInit == \E n \in 1..Len(Traces) : tr = n /\ l = 1 /\ k = 0 /\ Init0(Traces[n].cfg)
TNext ==
  /\ More
  /\ IF Ev.a # "Quiet" THEN Env(Ev) /\ l' = l + 1 /\ UNCHANGED <<tr, k>>
     ELSE IF k < Len(Ev.out)
     THEN LET x == Ev.out[k + 1] IN I_Do(x.i, x.r, x.sh, x.m, x.seq) /\ k' = k + 1 /\ UNCHANGED <<tr, l>>
     ELSE Ev.ok /\ open = {} /\ l' = l + 1 /\ k' = 0 /\ UNCHANGED <<vars, tr>>
TSpec == TInit /\ [][TNext]_tvars
Report ==
  /\ (~More) => PrintT(<<"ACCEPTED", Traces[tr].id>>)
  /\ (Explain /\ More /\ Ev.a = "Quiet") =>
        PrintT(<<"AT", l, k, next, ep, IF k < Len(Ev.out) THEN <<Ev.out[k + 1], ops[Ev.out[k + 1].i]>> ELSE <<open, Ev.ok>> >>)
=============================================================================
