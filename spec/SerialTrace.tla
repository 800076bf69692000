---------------------------- MODULE SerialTrace -----------------------------
EXTENDS Serial, Json
CONSTANT TraceFile, Explain
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l
tvars == <<vars, tr, l>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
Step(e) ==
  CASE e.a = "Piece" -> E_Piece(e.kind, e.len)
    [] e.a = "Write" -> E_Write(e.upto)
    [] e.a = "Pub" -> E_Pub(e.len)
    [] e.a = "Hangup" -> E_Hangup
    [] e.a = "Quiet" -> e.ok /\ e.got = NewGot /\ e.sent = NewSent /\ e.closed = gone /\ E_Quiet
TInit == \E n \in 1..Len(Traces) : tr = n /\ l = 1 /\ Init0(Traces[n].cfg)
TNext == More /\ Step(Ev) /\ l' = l + 1 /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_tvars
Report ==
  /\ (~More) => PrintT(<<"ACCEPTED", Traces[tr].id>>)
  /\ (Explain /\ More /\ Ev.a = "Quiet") => PrintT(<<"AT", l, NewGot, NewSent, gone>>)
=============================================================================
