----------------------------- MODULE NusbTrace ------------------------------
EXTENDS Nusb, Json
CONSTANT TraceFile, Explain
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l
tvars == <<vars, tr, l>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
Step(e) ==
  CASE e.a = "Connect" -> E_Connect /\ (e.ok = (up' = "yes")) = TRUE
                          /\ (e.ok => (e.dev = ifr'.dev /\ e.ifn = cfg.devs[e.dev].ifs[ifr'.ifn].no /\ e.ins = <<ifr'.epin>>)) = TRUE
    [] e.a = "Pub" -> IF e.ok THEN E_Pub(e.len) ELSE E_PubFail
    [] e.a = "OutOk" -> IF e.n = -2 THEN E_OutNone ELSE e.ep = ifr.epout /\ E_OutOk(e.n)
    [] e.a = "OutErr" -> IF e.had THEN E_OutErr ELSE E_OutNone
    [] e.a = "Close" -> E_Close
    [] e.a = "In" -> E_In(e.kind, e.len)
    [] e.a = "InErr" -> E_InErr(e.kind, e.had)
    [] e.a = "Clr" -> E_Clr(e.b)
    [] e.a = "Quiet" -> E_Quiet(e.got) /\ e.closed = closed' /\ e.misuse = 0 /\ e.ok /\ e.listening = ~closed'
TInit == \E n \in 1..Len(Traces) : tr = n /\ l = 1 /\ Init0(Traces[n].cfg)
TNext == More /\ Step(Ev) /\ l' = l + 1 /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_tvars
Report ==
  /\ (~More) => PrintT(<<"ACCEPTED", Traces[tr].id>>)
  /\ (Explain /\ More) => PrintT(<<"AT", l, Ev.a, up, closed, outs, pos, fed, errs, err, arr, post>>)
=============================================================================
