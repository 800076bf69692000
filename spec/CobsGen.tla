------------------------------ MODULE CobsGen -------------------------------
(* Streams of pieces (frames, damaged frames, oversized ones), fed in chunks. *)
EXTENDS Cobs, Json
CONSTANTS Cfgs, Runs, RunLens, MaxRuns, ScriptLen
VARIABLES n,    \* number of bytes not yet fed (nearly: not counting some of the code bytes)
          d,    \* the data being made up, in runs
          fin,  \* is the script complete?
          h     \* pieces [k, x, d] put into the stream and chunks [k: "cut", x: length] fed from it
gvars == <<vars, n, d, fin, h>>
Rep(b, k) == TLCEval([j \in 1..k |-> b])
RECURSIVE Flat(_)
Flat(x) == IF x = <<>> THEN <<>> ELSE Rep(x[1][1], x[1][2]) \o Flat(Tail(x))
Size(x) == FoldLeft(LAMBDA m, r : m + r[2], 0, x)
\* the bytes of a piece
Bytes(q) == LET e == Encode(Flat(q.d)) IN
  (CASE q.k = "frame" -> e
     [] q.k = "lost" -> LET p == IF q.x > Len(e) THEN Len(e) ELSE q.x IN SubSeq(e, 1, p - 1) \o SubSeq(e, p + 1, Len(e))
     [] q.k = "changed" -> [e EXCEPT ![IF q.x > 8 THEN 1 ELSE (Len(e) + 1) \div 2] = q.x]
     [] q.k = "raw" -> Rep(q.d[1][1], q.d[1][2])) \o <<0>>
G_Run == Len(d) < MaxRuns /\ \E b \in Runs : \E k \in RunLens : d' = Append(d, <<b, k>>) /\ UNCHANGED <<vars, n, fin, h>>
Put(q) == n <= cfg.n /\ h' = Append(h, q) /\ n' = n + Size(q.d) + 2 /\ d' = <<>> /\ UNCHANGED <<vars, fin>>
G_Frame == Put([k |-> "frame", x |-> 0, d |-> d])
G_Frame2 == G_Frame
G_Frame3 == G_Frame
\* a byte lost or changed
G_Lost == \E p \in {1, 2, 1000} : Put([k |-> "lost", x |-> p, d |-> d])
G_Changed == \E b \in {0, 1, 2, 9, 254, 255} : Put([k |-> "changed", x |-> b, d |-> d])
G_Raw == n = 0 /\ \E k \in {cfg.n - 2, cfg.n - 1, cfg.n, cfg.n + 1, 2 * cfg.n - 1, 2 * cfg.n, 2 * cfg.n + 3} :
  k >= 0 /\ \E b \in {1, 3} : Put([k |-> "raw", x |-> 0, d |-> <<<<b, k>>>>])
Cut(k) == /\ n' = n - k /\ h' = Append(h, [k |-> "cut", x |-> k, d |-> <<>>]) /\ UNCHANGED <<vars, d, fin>>
G_All == n > 0 /\ Cut(n)
G_Some == n > 0 /\ \E k \in {0, 1, 2, 3, 7, n - 1, n \div 2, cfg.n - 1, cfg.n, cfg.n + 1} : k >= 0 /\ k <= n /\ Cut(k)
G_Some2 == G_Some
GInit == (\E c \in Cfgs : Init0(c)) /\ n = 0 /\ d = <<>> /\ h = <<>> /\ fin = FALSE
GNext == \/ Len(h) >= ScriptLen /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<vars, n, d, h>>
         \/ Len(h) < ScriptLen /\ (G_Run \/ G_Frame \/ G_Frame2 \/ G_Frame3 \/ G_Lost \/ G_Changed \/ G_Raw \/ G_All \/ G_Some \/ G_Some2)
GSpec == GInit /\ [][GNext]_gvars
Finished == fin
FeedStep(s, y) ==
  IF y.k = "cut" THEN LET m == IF y.x > Len(s.st) THEN Len(s.st) ELSE y.x IN
       [st |-> SubSeq(s.st, m + 1, Len(s.st)), out |-> Append(s.out, [a |-> "Feed", c |-> SubSeq(s.st, 1, m)])]
  ELSE [s EXCEPT !.st = @ \o Bytes(y)]
Feeds == LET s == FoldLeft(FeedStep, [st |-> <<>>, out |-> <<>>], h) IN Append(s.out, [a |-> "Feed", c |-> s.st])
Emit == Finished => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, ev |-> Feeds]))
=============================================================================
