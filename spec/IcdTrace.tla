------------------------------ MODULE IcdTrace ------------------------------
(* Are the constants the real macros compute for the declarations the ones they mean? *)
EXTENDS Icd, Json
CONSTANTS TraceFile, Explain, TypesFile, Path, StdEps, StdOut, StdIn
\* Std..: the standard items, [p, req, resp] or [p, msg], types as trees
Traces == ndJsonDeserialize(TraceFile)
Ty == ndJsonDeserialize(TypesFile)[1].trees
StdTrees == ndJsonDeserialize(TypesFile)[1].std
SE == { [p |-> StdEps[i].p, rq |-> Key(StdEps[i].p, StdEps[i].req), rs |-> Key(StdEps[i].p, StdEps[i].resp)] : i \in 1..Len(StdEps) }
ST(s) == { [p |-> s[i].p, k |-> Key(s[i].p, s[i].msg)] : i \in 1..Len(s) }
SEv == SE
SOv == ST(StdOut)
SIv == ST(StdIn)
ReachOf(ts) == UNION { Reach(ts[i]) : i \in 1..Len(ts) }
With(o, std, own) == own \union (IF o = "true" THEN {} ELSE std)
VARIABLES n, go
Decl(t) ==
  LET d == t.decl
      e == On(d.eps)
      i == On(d.tin)
      o == On(d.tout)
      erows == EpRows(e, Ty, Path)
      irows == TpRows(i, Ty, Path)
      orows == TpRows(o, Ty, Path)
      ety == EpTypes(e, Ty)
      ity == TpTypes(i, Ty)
      oty == TpTypes(o, Ty)
      E == With(d.omit.e, SEv, erows)
      I == With(d.omit.i, SIv, irows)
      O == With(d.omit.o, SOv, orows)
      ET == With(d.omit.e, ReachOf(StdTrees.eps), ety)
      IT == With(d.omit.i, ReachOf(StdTrees.tin), ity)
      OT == With(d.omit.o, ReachOf(StdTrees.tout), oty)
  IN /\ Lists(t.eps, E) /\ Lists(t.tin, I) /\ Lists(t.tout, O)
     /\ Lists(t.etys, ET) /\ Lists(t.itys, IT) /\ Lists(t.otys, OT)
     /\ t.dirs = <<"in", "out">>
     \* the constants of each item, and of the same items declared one by one
     /\ \A k \in 1..Len(e) : t.ce[k] = [p |-> Path[e[k].path], rq |-> Key(Path[e[k].path], Ty[e[k].req]), rs |-> Key(Path[e[k].path], Ty[e[k].resp])]
     /\ \A k \in 1..Len(i) : t.ci[k] = [p |-> Path[i[k].path], k |-> Key(Path[i[k].path], Ty[i[k].msg])]
     /\ \A k \in 1..Len(o) : t.co[k] = [p |-> Path[o[k].path], k |-> Key(Path[o[k].path], Ty[o[k].msg])]
     /\ Len(t.ce) = Len(e) /\ Len(t.ci) = Len(i) /\ Len(t.co) = Len(o)
     /\ t.se = t.ce /\ t.si = t.ci
     \* declared without a path, the name is the path
     /\ Len(t.be) = Len(e) /\ Len(t.bi) = Len(i)
     /\ \A k \in 1..Len(e) : t.be[k] = [p |-> d.bne[k], rq |-> Key(d.bne[k], Ty[e[k].req]), rs |-> Key(d.bne[k], Ty[e[k].resp])]
     /\ \A k \in 1..Len(i) : t.bi[k] = [p |-> d.bni[k], k |-> Key(d.bni[k], Ty[i[k].msg])]
     \* and of the dispatcher built from them
     /\ t.disp => (Lists(t.deps, E) /\ Lists(t.dtin, I) /\ Lists(t.dtout, O) /\ Lists(t.dtys, ET \union IT \union OT))
StdOk(t) ==
  /\ Lists(t.eps, SEv) /\ Lists(t.tin, SIv) /\ Lists(t.tout, SOv) /\ t.dirs = <<"in", "out">>
  /\ Lists(t.etys, ReachOf(t.std.eps)) /\ Lists(t.itys, ReachOf(t.std.tin)) /\ Lists(t.otys, ReachOf(t.std.tout))
  /\ t.errkey = Key(t.errpath, t.errtree) /\ t.errpath = <<101, 114, 114, 111, 114>>
Good(t) == t.ok /\ IF t.op = "decl" THEN Decl(t) ELSE StdOk(t)
TSpec == n \in 1..Len(Traces) /\ go = FALSE /\ [][~go /\ go' = TRUE /\ UNCHANGED n]_<<n, go>>
Report == go => (Good(Traces[n]) => PrintT(<<"ACCEPTED", Traces[n].id>>))
=============================================================================
