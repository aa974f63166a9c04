------------------------------- MODULE PlotModel -------------------------------
(* Figures and what they show.  Every plot is described by the source of its surface, its coordinates, the projection and the decorations.  A plot on  *)
(* a given figure replaces whatever this figure showed and touches no other; the profile plot opens a new figure; rejected calls change nothing.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Figs
Projs == {"2d", "2D", "3d", "3D", "default"}
Is3D(p) == p \in {"3d", "3D"}
VARIABLES shown,     \* what every figure shows: <<>> or a description
          opened,    \* description of the figure opened by the last step, <<>> if none
          outcome, last
View == shown
vars == <<shown, opened, outcome, last>>
Init == shown = [f \in Figs |-> <<>>] /\ opened = <<>> /\ outcome = "none" /\ last = <<"none">>
DefaultCoords(p) == IF Is3D(p) THEN "mesh" ELSE "polar"
Kind(p) == IF Is3D(p) THEN "surface" ELSE "mesh"
(* sum of polynomials on a figure *)
(* coefs, pols: "some" or "none"; surf: "tuple" (three values), "short" (another length), "none" *)
SumArgs == [defaults : BOOLEAN, coefs : {"some", "none"}, pols : {"some", "none"}, surf : {"tuple", "short", "none"}, proj : Projs, range : BOOLEAN]
(* the documented domain: with default coordinates either both sequences are given or (rejected) none; otherwise a surface of three values is needed *)
InDomain(a) == IF a.defaults THEN a.coefs = a.pols ELSE TRUE
Rejects(a) == (a.defaults /\ a.coefs = "none" /\ a.pols = "none") \/ (~a.defaults /\ a.surf # "tuple")
Drawn(a) == <<Kind(a.proj), IF a.defaults THEN "sum" ELSE "given", IF a.defaults THEN DefaultCoords(a.proj) ELSE "given", a.range>>
PlotSum(f, a) == /\ InDomain(a)
                 /\ outcome' = IF Rejects(a) THEN "ValueError" ELSE "drawn"
                 /\ shown' = IF Rejects(a) THEN shown ELSE [shown EXCEPT ![f] = Drawn(a)]
                 /\ opened' = <<>>
                 /\ last' = <<"sum", f, a>>
(* profile of one polynomial on a new figure *)
ProfArgs == [defaults : BOOLEAN, coords : {"pair", "short", "none"}, proj : Projs, title : BOOLEAN]
ProfRejects(a) == ~a.defaults /\ a.coords # "pair"
PlotProfile(a) == /\ outcome' = IF ProfRejects(a) THEN "ValueError" ELSE "drawn"
                  /\ opened' = IF ProfRejects(a) THEN <<>>
                               ELSE <<Kind(a.proj), "single", IF a.defaults THEN DefaultCoords(a.proj) ELSE "given", a.title /\ ~Is3D(a.proj)>>
                  /\ UNCHANGED shown
                  /\ last' = <<"profile", a>>
Next == \/ \E f \in Figs, a \in SumArgs : PlotSum(f, a)
        \/ \E a \in ProfArgs : PlotProfile(a)
OthersKept == [][\A f \in Figs : shown'[f] # shown[f] => (last'[1] = "sum" /\ last'[2] = f /\ outcome' = "drawn")]_vars
RejectedKeeps == [][outcome' = "ValueError" => (shown' = shown /\ opened' = <<>>)]_vars
LastOnly == [][(last'[1] = "sum" /\ outcome' = "drawn") => shown'[last'[2]] = Drawn(last'[3])]_vars
CoordsFit == \A f \in Figs : shown[f] # <<>> => (shown[f][3] = "given" <=> shown[f][2] = "given")
Edge == PrintT(ToJson([f |-> shown, a |-> last', t |-> shown', o |-> outcome', n |-> opened']))
=================================================================================
