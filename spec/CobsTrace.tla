----------------------------- MODULE CobsTrace ------------------------------
EXTENDS Cobs, Json
CONSTANT TraceFile, Explain
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, l, no
tvars == <<vars, tr, l, no>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
Since(s, m) == SubSeq(s, m + 1, Len(s))
TInit == \E n \in 1..Len(Traces) : tr = n /\ l = 1 /\ no = 0 /\ Init0(Traces[n].cfg)
\* an oversized piece is reported once: when it is known to be one, or later, up to its end
TNext ==
  /\ More /\ Feed(Ev.c) /\ Ev.ok /\ Ev.frames = Since(frames', Len(frames))
  /\ no' = no + Ev.over /\ no' >= ended' /\ no' <= over'
  /\ l' = l + 1 /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_tvars
Report ==
  /\ (~More) => PrintT(<<"ACCEPTED", Traces[tr].id>>)
  /\ (Explain /\ More) => PrintT(<<"AT", l, acc, no, over, ended>>)
=============================================================================
