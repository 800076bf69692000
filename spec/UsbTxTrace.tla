----------------------------- MODULE UsbTxTrace -----------------------------
(* Are the recorded executions of the USB transmitter behaviours of UsbTx? *)
EXTENDS UsbTx, Json
CONSTANT TraceFile, Explain
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, mw, md
tvars == <<vars, tr, l, mw, md>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
Env(e) ==
  CASE e.a = "Start" -> E_Start(e.kind, e.len)
    [] e.a = "Drop" -> E_Drop(e.i)
    [] e.a = "Take" -> E_Take("acked")
    [] e.a = "Slow" -> E_Take("taken")
    [] e.a = "Ack" -> E_Ack
    [] e.a = "Disable" -> E_Disable
    [] e.a = "Enable" -> E_Enable
    [] e.a = "Tick" -> E_Tick(e.n)
Since(s, m) == SubSeq(s, m + 1, Len(s))
Observed(e) == e.ok /\ e.wire = Since(wire, mw) /\ e.done = Since(done, md)
TInit == \E n \in 1..Len(Traces) : tr = n /\ l = 1 /\ mw = 0 /\ md = 0 /\ Init0(Traces[n].cfg)
TNext ==
  /\ More
  /\ IF Ev.a # "Quiet" THEN Env(Ev) /\ l' = l + 1 /\ UNCHANGED <<tr, mw, md>>
     ELSE \/ /\ Quiescent /\ Observed(Ev) /\ l' = l + 1
             /\ mw' = Len(wire) /\ md' = Len(done) /\ UNCHANGED <<vars, tr>>
          \/ Internal /\ UNCHANGED <<tr, l, mw, md>>
TSpec == TInit /\ [][TNext]_tvars
Report ==
  /\ (~More) => PrintT(<<"ACCEPTED", Traces[tr].id>>)
  /\ (Explain /\ More /\ Ev.a = "Quiet" /\ Quiescent) =>
        PrintT(<<"AT", l, Since(wire, mw), Since(done, md)>>)
=============================================================================
