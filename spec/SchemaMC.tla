------------------------------ MODULE SchemaMC ------------------------------
(* Small device maps, every pattern of failed, lost, repeated and late messages. *)
EXTENDS Schema
CONSTANTS Maps, MaxTick, MaxClose
VARIABLES ticks, faults
mvars == <<vars, ticks, faults>>
Orders == {[i \in 1..N |-> <<i, i \notin F>>] : F \in SUBSET (1..N)}
MInit == Init0 /\ msgs \in Maps /\ ticks = 0 /\ faults = 0
F(b) == faults' = IF b THEN 1 ELSE faults
MNext ==
  \/ \E d \in Ds : (IF d = 1 THEN TRUE ELSE disc[d - 1].st # "idle") /\ Start(d) /\ UNCHANGED <<ticks, faults>>
  \/ \E o \in Orders, t \in BOOLEAN : Serve(o, t) /\ F(~t \/ \E i \in 1..N : ~o[i][2]) /\ UNCHANGED ticks
  \/ Deliver(1, 1) /\ UNCHANGED <<ticks, faults>>
  \/ Deliver(1, 2) /\ F(TRUE) /\ UNCHANGED ticks
  \/ Deliver(Len(pipe), 1) /\ UNCHANGED <<ticks, faults>>
  \/ Lose(1) /\ F(TRUE) /\ UNCHANGED ticks
  \/ Refuse /\ F(TRUE) /\ UNCHANGED ticks
  \/ \E ms \in {40, 150} : ticks < MaxTick /\ Tick(ms) /\ ticks' = ticks + 1 /\ F(ms > 100 /\ \E d \in Ds : disc[d].st = "run" /\ disc[d].tot = "none")
  \/ MaxClose > 0 /\ Close /\ F(TRUE) /\ UNCHANGED ticks
MSpec == MInit /\ [][MNext]_mvars
\* on a clean link, with one discovery at a time, discovery succeeds
CleanSucceeds == (faults = 0 /\ NoD = 1 /\ disc[1].st = "done") => (disc[1].res = "ok" \/ disc[1].timer > 0 \/ disc[1].odd)
NothingOpenAfterClose == closed => \A d \in Ds : disc[d].st # "run"
=============================================================================
