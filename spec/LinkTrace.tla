------------------------------ MODULE LinkTrace -----------------------------
(* Are the recorded executions of client, cable and device behaviours of Link? *)
EXTENDS Link, Json
CONSTANT TraceFile, Explain
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, md, ms
tvars == <<vars, tr, l, md, ms>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
Env(e) ==
  CASE e.a = "Connect" -> E_Connect(e)
    [] e.a = "Call" -> E_Call(e.n, e.m)
    [] e.a = "Out" -> E_Out(e.k)
    [] e.a = "In" -> E_In(e.k)
    [] e.a = "Stall" -> E_Stall(e.had)
Since(s, m) == SubSeq(s, m + 1, Len(s))
Done == LET d == Since(done, md) IN [k \in 1..Len(d) |-> [i |-> d[k], r |-> "ok"]]
Observed(e) == e.ok /\ ~e.closed /\ e.outs = outs /\ e.ins = ins /\ e.done = Done /\ e.seen = Since(seen, ms)
TInit == \E n \in 1..Len(Traces) : tr = n /\ l = 1 /\ md = 0 /\ ms = 0 /\ Init0(Traces[n].cfg)
\* the real system is at rest after every event
TNext ==
  /\ More
  /\ IF ~Quiescent THEN Internal /\ UNCHANGED <<tr, l, md, ms>>
     ELSE /\ l' = l + 1 /\ UNCHANGED tr
          /\ IF Ev.a # "Quiet" THEN Env(Ev) /\ UNCHANGED <<md, ms>>
             ELSE Observed(Ev) /\ md' = Len(done) /\ ms' = Len(seen) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Report ==
  /\ (~More) => PrintT(<<"ACCEPTED", Traces[tr].id>>)
  /\ (Explain /\ More /\ Quiescent /\ Ev.a = "Quiet") => PrintT(<<"AT", l, Done, Since(seen, ms), outs, ins>>)
=============================================================================
