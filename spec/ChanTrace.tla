------------------------------ MODULE ChanTrace -----------------------------
(* Are the recorded executions of the channel transport behaviours of Chan? *)
EXTENDS Chan, Json
CONSTANT TraceFile, Explain
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, rep
tvars == <<vars, tr, l, rep>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
Env(e) ==
  CASE e.a = "Push" -> E_Push(e.n)
    [] e.a = "Recv" -> E_Recv
    [] e.a = "Send" -> E_Send(e.k)
    [] e.a = "Cancel" -> E_Cancel(e.i)
    [] e.a = "Take" -> (e.got = Taken) /\ E_Take
    [] e.a = "DropIn" -> E_DropIn
    [] e.a = "DropOut" -> E_DropOut
    [] e.a = "Stop" -> E_Stop
Range(s) == { s[i] : i \in 1..Len(s) }
Observed(e) == /\ e.ok /\ Range(e.done) = done \ rep /\ Len(e.done) = Cardinality(done \ rep)
               /\ e.srv = (IF srv[1] = "end" THEN srv[2] ELSE "on")
TInit == \E n \in 1..Len(Traces) : tr = n /\ l = 1 /\ rep = {} /\ Init0(Traces[n].cfg)
TNext ==
  /\ More
  /\ IF Ev.a # "Quiet" THEN Env(Ev) /\ l' = l + 1 /\ UNCHANGED <<tr, rep>>
     ELSE \/ Quiescent /\ Observed(Ev) /\ l' = l + 1 /\ rep' = done /\ UNCHANGED <<vars, tr>>
          \/ Internal /\ UNCHANGED <<tr, l, rep>>
TSpec == TInit /\ [][TNext]_tvars
Report ==
  /\ (~More) => PrintT(<<"ACCEPTED", Traces[tr].id>>)
  /\ (Explain /\ More /\ Ev.a = "Quiet" /\ Quiescent) => PrintT(<<"AT", l, done \ rep, srv, outq, inq>>)
=============================================================================
