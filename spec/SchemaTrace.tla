----------------------------- MODULE SchemaTrace ----------------------------
(* Is the recorded discovery one the specification allows? *)
EXTENDS Schema, Json
CONSTANTS TraceFile, Explain
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tid, pos
Set(s) == {s[i] : i \in 1..Len(s)}
T == Traces[tid]
TInit == /\ tid \in 1..Len(Traces) /\ pos = 0 /\ Init0
         /\ msgs = [m \in 1..Len(Traces[tid].msgs) |-> [k |-> Traces[tid].msgs[m].k, needs |-> Set(Traces[tid].msgs[m].needs)]]
Of(k) == {m \in 1..N : msgs[m].k = k}
\* the report names exactly the announced endpoints and topics, once each, and every type that arrived
ReportRight(d, r) ==
  /\ Set(r.eps) = Of("ep") /\ Len(r.eps) = Cardinality(Of("ep"))
  /\ Set(r.ins) = Of("in") /\ Len(r.ins) = Cardinality(Of("in"))
  /\ Set(r.outs) = Of("out") /\ Len(r.outs) = Cardinality(Of("out"))
  /\ (disc'[d].odd \/ Set(r.types) \ {0} = disc'[d].col \ Listed)
  /\ 0 \notin Set(r.types)
Shown(e) == /\ e.ok
            /\ \A d \in Ds : /\ e.res[d].st = (IF disc'[d].st = "done" THEN disc'[d].res ELSE "none")
                             /\ e.res[d].st = "ok" => ReportRight(d, e.res[d])
Step(e) ==
  CASE e.a = "Start" -> Start(e.d)
    [] e.a = "Serve" -> Serve(e.order, e.tot)
    [] e.a = "Refuse" -> Refuse
    [] e.a = "Deliver" -> Deliver(e.k, e.c)
    [] e.a = "Lose" -> Lose(e.k)
    [] e.a = "Noise" -> Noise
    [] e.a = "Tick" -> Tick(e.ms)
    [] e.a = "Close" -> Close
TNext == /\ pos < Len(T.ev) /\ LET e == T.ev[pos + 1] IN Step(e) /\ Shown(e)
         /\ pos' = pos + 1 /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_<<vars, tid, pos>>
Report == /\ (pos = Len(T.ev) => PrintT(<<"ACCEPTED", T.id>>))
          /\ (Explain => PrintT(<<"AT", pos, IF pos < Len(T.ev) THEN T.ev[pos + 1].a ELSE "end", disc, reqs, Len(pipe)>>))
          /\ NeverIncomplete
=============================================================================
