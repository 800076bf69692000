-------------------------- MODULE HostClientTrace ---------------------------
(* Are the recorded executions behaviours of HostClient?                   *)
(* A trace is a sequence of environment events, in the order in which they *)
(* were performed, and "Quiet" events at which everything the client had   *)
(* to do was done, with what could be observed since the previous one.     *)
EXTENDS HostClient, Json
CONSTANT TraceFile, Explain
Traces == ndJsonDeserialize(TraceFile)

VARIABLES tr, l, mark, rep      \* trace, position, sent frames and operations already reported
tvars == <<vars, tr, l, mark, rep>>

Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)

Env(e) ==
  CASE e.a = "Call"    -> E_Call(e.e)
    [] e.a = "CallRaw" -> E_CallRaw(e.e, e.sq)
    [] e.a = "Pub"     -> E_Pub(e.t, e.sq, e.sw)
    [] e.a = "Wait"    -> E_Wait
    [] e.a = "Cancel"  -> E_Cancel(e.i)
    [] e.a = "Clone"   -> E_Clone
    [] e.a = "Drop"    -> E_Drop
    [] e.a = "Close"   -> E_Close
    [] e.a = "Sub"     -> E_Sub(e.mode, e.t, e.depth, e.raw)
    [] e.a = "Recv"    -> E_Recv(e.s)
    [] e.a = "DropSub" -> E_DropSub(e.s)
    [] e.a = "Rx"      -> E_Rx(e.f)
    [] e.a = "TxOk"    -> E_TxOk
    [] e.a = "TxErr"   -> E_TxErr
    [] e.a = "Tick"    -> E_Tick
    [] e.a = "Loop"    -> /\ E_Loop(e.n)
                          \* runs of consecutive numbers seen on the wire: [first, count]
                          /\ LET m == SeqMod(cfg.sw) IN
                             /\ e.good = e.n
                             /\ \A r \in 1..Len(e.runs) :
                                  LET before == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE e.runs[k].n + S(k-1) IN S(r-1) IN
                                  /\ e.runs[r].from = (nseq + before) % m
                                  /\ (r < Len(e.runs)) => e.runs[r].from + e.runs[r].n = m
                             /\ (LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE e.runs[k].n + S(k-1) IN S(Len(e.runs))) = e.n

Newly == {i \in 1..Len(ops) : ops[i].st = "done"} \ rep

Observed(e) ==
  /\ e.ok
  /\ Len(e.done) = Cardinality(Newly)
  /\ \A n \in 1..Len(e.done) : LET d == e.done[n] IN
       d.i \in Newly /\ ops[d.i].res.r = d.r /\ ops[d.i].res.v = d.v
  /\ e.sent = SubSeq(sent, mark + 1, Len(sent))
  /\ handles > 0 => e.closed = closed
  /\ e.ind = inDone /\ e.outd = outDone

TInit == \E n \in 1..Len(Traces) :
  /\ tr = n /\ l = 1 /\ mark = 0 /\ rep = {} /\ Init0(Traces[n].cfg)

TNext ==
  /\ More
  /\ IF Ev.a # "Quiet"
     THEN Env(Ev) /\ l' = l + 1 /\ UNCHANGED <<tr, mark, rep>>
     ELSE \/ /\ Quiescent /\ Observed(Ev)
             /\ l' = l + 1 /\ mark' = Len(sent) /\ rep' = rep \cup Newly
             /\ UNCHANGED <<vars, tr>>
          \/ Internal /\ UNCHANGED <<tr, l, mark, rep>>

TSpec == TInit /\ [][TNext]_tvars

\* one line of output per accepted trace (read by the runner); in Explain mode also progress
Report ==
  /\ (~More) => PrintT(<<"ACCEPTED", Traces[tr].id>>)
  /\ (Explain /\ More /\ Ev.a = "Quiet" /\ Quiescent) =>
        PrintT(<<"AT", l, [i \in Newly |-> ops[i].res], SubSeq(sent, mark + 1, Len(sent)), closed, inDone, outDone>>)
=============================================================================
