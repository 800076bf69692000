---------------------------- MODULE RpcAbsTrace -----------------------------
(* Executions on several threads: the events in the order they were noted. *)
EXTENDS RpcAbs, Json
CONSTANT TraceFile, Explain
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l
tvars == <<avars, tr, l>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
Step(e) ==
  CASE e.a = "Issue" -> A_Issue(e.i, e.k, e.by)
    [] e.a = "Call" -> A_Call(e.i, e.k, e.sq)
    [] e.a = "Done" -> A_Done(e.i, e.r, e.v)
    [] e.a = "SPub" -> A_SPub(e.i)
    [] e.a = "SGot" -> A_SGot(e.i)
    [] e.a = "End" -> e.ok /\ Settled /\ UNCHANGED avars
TInit == \E n \in 1..Len(Traces) : tr = n /\ l = 1 /\ AInit
TNext == More /\ Step(Ev) /\ l' = l + 1 /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_tvars
Report ==
  /\ (~More) => PrintT(<<"ACCEPTED", Traces[tr].id>>)
  /\ (Explain /\ More) => PrintT(<<"AT", l, Ev, open, pubs, spubs>>)
=============================================================================
