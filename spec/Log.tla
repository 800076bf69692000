-------------------------------- MODULE Log ---------------------------------
(***************************************************************************)
(* Logging by the device.  A text is a number of characters whose widths   *)
(* repeat a pattern; a log message is the whole text, or, from formatted   *)
(* logging that does not fit the transmit buffer, its first characters and *)
(* an ellipsis.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,    \* [v: transport, buf: length of the transmit buffer, wrap: number of sequence numbers]
  ep,     \* is the connection up?
  ops,    \* sequence of [kind, w, n, pat]: kind "str", "fmt" or "send" (n: length of the frame), "many" (n messages)
  open,   \* operations not yet done
  next,   \* next sequence number
  out     \* results: [i, r, sh, m, seq]: how the text arrived (sh "none", "full", "cut", "bare"), with how many characters
vars == <<cfg, ep, ops, open, next, out>>
Init0(c) == cfg = c /\ ep = TRUE /\ ops = <<>> /\ open = {} /\ next = 0 /\ out = <<>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* bytes of the first n characters
Bytes(pat, n) == (n \div Len(pat)) * Sum(pat) + Sum(SubSeq(pat, 1, n % Len(pat)))
V(n) == IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2 ELSE 3
Hdr(o) == 3 + o.w
Room(o) == cfg.buf - Hdr(o)

E_Start(kind, w, n, pat) ==
  /\ ops' = Append(ops, [kind |-> kind, w |-> w, n |-> n, pat |-> pat]) /\ open' = open \cup {Len(ops) + 1}
  /\ UNCHANGED <<cfg, ep, next, out>>
E_Disable == ep /\ ep' = FALSE /\ UNCHANGED <<cfg, ops, open, next, out>>
E_Enable == ~ep /\ ep' = TRUE /\ UNCHANGED <<cfg, ops, open, next, out>>

\* may (and must) the text arrive whole?
Whole(o) == LET b == Bytes(o.pat, o.n) IN b + V(b) <= Room(o)
MustBeWhole(o) == LET b == Bytes(o.pat, o.n) IN
  IF o.kind = "str" THEN Whole(o) ELSE Room(o) > 0 /\ b + V(Room(o)) <= Room(o)
\* may it be cut after m characters?
CutAt(o, m) == LET k == Bytes(o.pat, m) + 3 IN
  /\ o.kind = "fmt" /\ m < o.n /\ k + V(k) <= Room(o)
  /\ k >= Room(o) - V(Room(o)) - 3
\* no room for an ellipsis
Tiny(o) == Room(o) - V(Room(o)) < 3
BareAt(o, m) == o.kind = "fmt" /\ Tiny(o) /\ m < o.n /\ Bytes(o.pat, m) + 1 <= Room(o)

Arrives(o, sh, m) ==
  CASE o.kind = "send" -> sh = "full" /\ o.n <= cfg.buf
    [] o.kind = "many" -> sh = "full"
    [] sh = "full" -> m = o.n /\ Whole(o)
    [] sh = "cut" -> ~MustBeWhole(o) /\ CutAt(o, m)
    [] sh = "bare" -> ~MustBeWhole(o) /\ BareAt(o, m)
    [] OTHER -> FALSE
Refused(o) ==
  CASE o.kind = "send" -> o.n > cfg.buf
    [] o.kind = "many" -> FALSE
    [] o.kind = "str" -> ~Whole(o)
    [] o.kind = "fmt" -> ~MustBeWhole(o) /\ (Room(o) < 0 \/ Tiny(o))
Numbered(o) == o.kind # "send"
Count(o) == IF o.kind = "many" THEN o.n ELSE 1

I_Do(i, r, sh, m, seq) ==
  LET o == ops[i] IN
  /\ i \in open /\ open' = open \ {i}
  /\ CASE r = "ok" -> /\ ep /\ Arrives(o, sh, m)
                      /\ IF Numbered(o) THEN seq = next /\ next' = (next + Count(o)) % cfg.wrap ELSE seq = 0 /\ UNCHANGED next
       [] r = "closed" -> ~ep /\ sh = "none" /\ m = 0 /\ seq = 0
       [] r = "other" -> Refused(o) /\ sh = "none" /\ m = 0 /\ seq = 0
       [] OTHER -> FALSE
  \* a message that could not be sent may or may not use up its number
  /\ r # "ok" => next' \in (IF Numbered(o) THEN {next, (next + 1) % cfg.wrap} ELSE {next})
  /\ out' = Append(out, [i |-> i, r |-> r, sh |-> sh, m |-> m, seq |-> seq])
  /\ UNCHANGED <<cfg, ep, ops>>
=============================================================================
