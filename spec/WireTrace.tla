------------------------------ MODULE WireTrace -----------------------------
(* Do the recorded results of the real header and key code agree with Wire? *)
EXTENDS Wire, Json
CONSTANTS TraceFile, Explain
Traces == ndJsonDeserialize(TraceFile)
VARIABLES n, go
Good(t) ==
  LET c == t.in  o == t.out IN
  /\ t.ok
  /\ CASE c.op = "enc" ->
          LET h == [key |-> c.key, seq |-> c.seq]  e == Encode(h)  len == HeaderLen(h) IN
          /\ o.vec = e /\ o.frame = e \o c.body
          /\ o.slice.ok = (c.buf >= len)
          \* nothing past the header is touched
          /\ \A i \in (len + 1)..c.buf : o.buf[i] = c.fill
          /\ o.slice.ok => o.slice.used = e /\ SubSeq(o.buf, 1, len) = e /\ o.slice.rest = c.buf - len
          /\ o.back = Decode(e \o c.body)
       [] c.op = "dec" -> o = Decode(c.b)
       [] c.op = "shrink" -> o.a = Shrink(c.key, c.a) /\ o.b = Shrink(Shrink(c.key, c.a), c.b)
       [] c.op = "eq" -> LET e == SameKey(c.key, c.other) IN o.ab = e /\ o.ba = e /\ o.hab = e /\ o.hba = e
       [] c.op = "conv" -> /\ o.k1 = Convert(c.key, 1) /\ o.k2 = Convert(c.key, 2)
                           /\ o.k4 = Convert(c.key, 4) /\ o.k8 = Convert(c.key, 8)
                           /\ \A x \in 1..Len(o.more) : o.more[x] = Fold(c.key, Len(o.more[x]))
       [] c.op = "seq" -> o.to = Resize(c.seq, c.to) /\ o.eq = SameSeq(c.seq, c.other) /\ o.qe = SameSeq(c.other, c.seq)
                          /\ o.u1 = Resize(c.seq, 1) /\ o.u2 = Resize(c.seq, 2) /\ o.u4 = Resize(c.seq, 4)
       [] c.op = "min" -> o.n = MinLen(Flatten(c.lists))
       [] c.op = "const" -> \A w \in {1, 2, 4} : o[ToString(w)] = Fold(c.key, w)
       [] c.op = "app" ->
          LET a == MinLen(o.ins)  b == MinLen(o.outs) IN
          /\ o.n = IF a > b THEN a ELSE b
          /\ o.map = o.n
TSpec == n \in 1..Len(Traces) /\ go = FALSE /\ [][~go /\ go' = TRUE /\ UNCHANGED n]_<<n, go>>
Report == go => (Good(Traces[n]) => PrintT(<<"ACCEPTED", Traces[n].id>>))
=============================================================================
