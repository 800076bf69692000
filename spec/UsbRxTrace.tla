----------------------------- MODULE UsbRxTrace -----------------------------
(* Are the recorded executions of the USB receiver behaviours of UsbRx?    *)
EXTENDS UsbRx, Json
CONSTANT TraceFile, Explain
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, mr
tvars == <<vars, tr, l, mr>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
Env(e) ==
  CASE e.a = "Recv" -> E_Recv
    [] e.a = "Pkt" -> E_Pkt(e.f, e.len)
    [] e.a = "Disable" -> E_Disable
    [] e.a = "Enable" -> E_Enable
Since(s, m) == SubSeq(s, m + 1, Len(s))
Observed(e) == e.ok /\ e.results = Since(results, mr) /\ e.recv = recv
TInit == \E n \in 1..Len(Traces) : tr = n /\ l = 1 /\ mr = 0 /\ Init0(Traces[n].cfg)
TNext ==
  /\ More
  /\ IF Ev.a # "Quiet" THEN Env(Ev) /\ l' = l + 1 /\ UNCHANGED <<tr, mr>>
     ELSE \/ Quiescent /\ Observed(Ev) /\ l' = l + 1 /\ mr' = Len(results) /\ UNCHANGED <<vars, tr>>
          \/ Internal /\ UNCHANGED <<tr, l, mr>>
TSpec == TInit /\ [][TNext]_tvars
Report ==
  /\ (~More) => PrintT(<<"ACCEPTED", Traces[tr].id>>)
  /\ (Explain /\ More /\ Ev.a = "Quiet" /\ Quiescent) => PrintT(<<"AT", l, Since(results, mr), recv>>)
=============================================================================
