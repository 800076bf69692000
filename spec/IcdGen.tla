------------------------------- MODULE IcdGen -------------------------------
(* Declarations: an interface is a list of endpoints, of topics to the server and of topics to the client. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NTypes, Borrowed, NPaths, MaxEps, MaxTps
VARIABLES eps, tin, tout, omit, disp, plain, ph
gvars == <<eps, tin, tout, omit, disp, plain, ph>>
Ids == 1..NTypes
Cfg == IF plain THEN {"none"} ELSE {"none", "on", "off"}
Used(p, t) == (\E i \in 1..Len(eps) : eps[i].path = p /\ (eps[i].req = t \/ eps[i].resp = t))
              \/ (\E i \in 1..Len(tin) : tin[i].path = p /\ tin[i].msg = t) \/ (\E i \in 1..Len(tout) : tout[i].path = p /\ tout[i].msg = t)
\* requests of a dispatcher's own endpoints must not borrow: its handlers here are generic
Fits(t) == disp => t \notin Borrowed
Pick(S) == RandomElement(S)
G_Ep == ph = "eps" /\ LET n == Pick(0..MaxEps) IN
        IF Len(eps) >= n THEN ph' = "tin" /\ UNCHANGED <<eps, tin, tout, omit, disp, plain>>
        ELSE LET p == Pick(1..NPaths)
                 q == Pick(Ids)
                 r == Pick(Ids)
             IN IF Used(p, q) \/ Used(p, r) \/ ~Fits(q) \/ ~Fits(r) \/ (q \in Borrowed /\ r \in Borrowed) THEN UNCHANGED gvars
                ELSE eps' = Append(eps, [req |-> q, resp |-> r, path |-> p, cfg |-> Pick(Cfg)]) /\ UNCHANGED <<tin, tout, omit, disp, plain, ph>>
Tp(list) == LET p == Pick(1..NPaths)
                q == Pick(Ids)
            IN IF Used(p, q) \/ ~Fits(q) THEN list ELSE Append(list, [msg |-> q, path |-> p, cfg |-> Pick(Cfg)])
G_Tin == ph = "tin" /\ IF Len(tin) >= Pick(0..MaxTps) THEN ph' = "tout" /\ UNCHANGED <<eps, tin, tout, omit, disp, plain>>
                       ELSE tin' = Tp(tin) /\ UNCHANGED <<eps, tout, omit, disp, plain, ph>>
G_Tout == ph = "tout" /\ IF Len(tout) >= Pick(0..MaxTps) THEN ph' = "done" /\ UNCHANGED <<eps, tin, tout, omit, disp, plain>>
                         ELSE tout' = Tp(tout) /\ UNCHANGED <<eps, tin, omit, disp, plain, ph>>
Omits == {"none", "true", "false"}
GInit == eps = <<>> /\ tin = <<>> /\ tout = <<>> /\ ph = "eps"
         /\ omit \in [e : Omits, i : Omits, o : Omits] /\ disp \in BOOLEAN /\ plain \in BOOLEAN
GNext == G_Ep \/ G_Tin \/ G_Tout
GSpec == GInit /\ [][GNext]_gvars
Emit == ph = "done" => PrintT("SCRIPT " \o ToJson([eps |-> eps, tin |-> tin, tout |-> tout, omit |-> omit, disp |-> disp]))
=============================================================================
