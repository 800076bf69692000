---------------------------- MODULE TypeSetTrace ----------------------------
(* Are the type lists computed by the real code right? *)
EXTENDS TypeSet, Json
CONSTANTS TraceFile, Explain
Traces == ndJsonDeserialize(TraceFile)
VARIABLES n, go
Good(t) ==
  /\ t.ok
  /\ CASE t.op = "one" -> Right(t.list, <<t.t>>) /\ t.upper >= Len(t.list)
       [] t.op = "merge" -> /\ \A i \in 1..Len(t.ts) : Right(t.lists[i], <<t.ts[i]>>)
                            /\ Right(t.list, t.ts)
       [] t.op = "static" -> Right(t.list, t.ts)
TSpec == n \in 1..Len(Traces) /\ go = FALSE /\ [][~go /\ go' = TRUE /\ UNCHANGED n]_<<n, go>>
Report == go => (Good(Traces[n]) => PrintT(<<"ACCEPTED", Traces[n].id>>))
=============================================================================
