------------------------------ MODULE SchemaGen -----------------------------
(* Scripts: discoveries over a link that fails sends, loses, repeats, delays and mixes. *)
EXTENDS Schema, Json
CONSTANTS ScriptLen, Acts, Size, Faults,
  Focus   \* aim single losses and repeats at the last so many frames
VARIABLES ev, faults
gvars == <<vars, ev, faults>>
E(e) == ev' = Append(ev, e)
\* a map of Size messages; what they are does not matter for what can be scripted
GInit == Init0 /\ msgs = [m \in 1..Size |-> [k |-> "type", needs |-> {}]] /\ ev = <<>> /\ faults = 0
Order(Fl) == [i \in 1..Size |-> <<i, i \notin Fl>>]
\* mostly deliver; a few faults per script, so that single losses get their share
Fault == faults < Faults /\ faults' = faults + 1
Have == Len(pipe)
GNext ==
  /\ Len(ev) < ScriptLen
  /\ \/ \E d \in Ds : (IF d = 1 THEN TRUE ELSE disc[d - 1].st # "idle") /\ Start(d) /\ E([a |-> "Start", d |-> d]) /\ UNCHANGED faults
     \/ "serve" \in Acts /\ Serve(Order({}), TRUE) /\ E([a |-> "Serve", fail |-> <<>>, tot |-> TRUE]) /\ UNCHANGED faults
     \/ "fail" \in Acts /\ Fault /\ LET x == RandomElement(1..Size)  y == RandomElement(1..Size) IN
          Serve(Order({x, y}), TRUE) /\ E([a |-> "Serve", fail |-> <<x, y>>, tot |-> TRUE])
     \/ "nototals" \in Acts /\ Fault /\ Serve(Order({}), FALSE) /\ E([a |-> "Serve", fail |-> <<>>, tot |-> FALSE])
     \/ "refuse" \in Acts /\ Fault /\ Refuse /\ E([a |-> "Refuse"])
     \/ \E q \in 1..3 : Have > 0 /\ LET k == RandomElement(1..Have) IN Deliver(k, 1) /\ E([a |-> "Deliver", k |-> k, c |-> 1]) /\ UNCHANGED faults
     \/ Have > Focus /\ LET k == Have - RandomElement(0..Focus) IN Deliver(k, 1) /\ E([a |-> "Deliver", k |-> k, c |-> 1]) /\ UNCHANGED faults
     \/ Have <= Focus /\ Deliver(1, 1) /\ E([a |-> "Deliver", k |-> 1, c |-> 1]) /\ UNCHANGED faults
     \/ Have > 0 /\ Deliver(Have, 1) /\ E([a |-> "Deliver", k |-> Have, c |-> 1]) /\ UNCHANGED faults
     \/ "dup" \in Acts /\ Have <= Focus /\ Fault /\ Deliver(1, 2) /\ E([a |-> "Deliver", k |-> 1, c |-> 2])
     \/ "lose" \in Acts /\ Have <= Focus /\ Fault /\ Lose(1) /\ E([a |-> "Lose", k |-> 1])
     \/ "lose" \in Acts /\ Fault /\ Have > 0 /\ LET k == RandomElement(1..(1 + Have \div 2)) IN Lose(k) /\ E([a |-> "Lose", k |-> k])
     \/ "noise" \in Acts /\ UNCHANGED <<vars, faults>> /\ E([a |-> "Noise", b |-> RandomElement(1..6)])
     \/ "tick" \in Acts /\ Tick(30) /\ E([a |-> "Tick", ms |-> 30]) /\ UNCHANGED faults
     \/ Have = 0 /\ reqs = <<>> /\ (\A d \in Ds : disc[d].st # "idle") /\ Tick(150) /\ E([a |-> "Tick", ms |-> 150]) /\ UNCHANGED faults
     \/ "gap" \in Acts /\ Fault /\ Tick(150) /\ E([a |-> "Tick", ms |-> 150])
     \/ "close" \in Acts /\ Fault /\ Close /\ E([a |-> "Close"])
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(ev) = ScriptLen => PrintT("SCRIPT " \o ToJson([ev |-> ev]))
=============================================================================
