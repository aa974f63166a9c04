--------------------------------- MODULE Domain ---------------------------------
(* Which coordinate arguments the evaluation methods accept, and which shape the result has: a decision table.                              *)
(* A coordinate argument is a kind (container) and a sequence of value classes for its elements.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Methods == {"polynomial_value", "radial", "radial_dr", "triangular", "triangular_dtheta"}
UsesR(me) == me \in {"polynomial_value", "radial", "radial_dr"}
UsesTheta(me) == me \in {"polynomial_value", "triangular", "triangular_dtheta"}
(* shapes: <<>> scalar, <<k>> vector, <<a, b>> matrix *)
Kinds == {"float", "int", "list", "tuple", "array1", "array3", "array3b", "array23", "array32", "long", "list100", "array98"}
Long(k) == k \in {"long", "list100", "array98"}                        \* long containers, the values inside sorted
ShapeOf(k) == CASE k \in {"float", "int"} -> <<>> [] k \in {"list", "tuple", "array3", "array3b"} -> <<3>> [] k = "array1" -> <<1>>
                [] k = "array23" -> <<2, 3>> [] k = "array32" -> <<3, 2>>
                [] k = "long" -> <<300>> [] k = "list100" -> <<100>> [] k = "array98" -> <<9, 8>>
Size(k) == LET s == ShapeOf(k) IN IF s = <<>> THEN 1 ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] * s[2]
Scalar(k) == ShapeOf(k) = <<>>
RClasses == {"zero", "one", "inside", "neg", "neg_tiny", "above", "above_tiny"}
IntRClasses == {"zero", "one", "neg", "above"}
BadR(c) == c \in {"neg", "neg_tiny", "above", "above_tiny"}
TClasses == {"zero", "2pi", "inside", "neg", "above"}
IntTClasses == {"zero", "inside", "neg", "above"}
OutT(c) == c \in {"neg", "above"}

Positions(k) == {i \in {1, 2, 3, 6, 37, 72, 100, 150, 300} : i <= Size(k)}

CONSTANT Polys
VARIABLES me, p, rk, rc, rpos, tk, tc, tpos
vars == <<me, p, rk, rc, rpos, tk, tc, tpos>>
(* one element (at position pos) has the class, all others are inside the domain *)
Init == /\ me \in Methods /\ p \in Polys
        /\ rk \in (IF UsesR(me) THEN Kinds ELSE {"float"}) /\ tk \in (IF UsesTheta(me) THEN Kinds ELSE {"float"})
        /\ (Long(rk) => tk \in {rk, "float", "array3"}) /\ (Long(tk) => rk \in {tk, "float", "array3"})
        /\ rc \in RClasses /\ tc \in TClasses
        /\ rpos \in Positions(rk) /\ tpos \in Positions(tk)
        /\ (rk = "int" => rc \in IntRClasses) /\ (tk = "int" => tc \in IntTClasses)
        /\ (~UsesR(me) => rk = "float" /\ rc = "inside" /\ rpos = 1)
        /\ (~UsesTheta(me) => tk = "float" /\ tc = "inside" /\ tpos = 1)
        \* of the two-argument product keep the interesting planes: at most one unusual class
        /\ (UsesR(me) /\ UsesTheta(me) => (rc = "inside" \/ tc = "inside" \/ (rk = "float" /\ tk = "float")))
        /\ (rc = "inside" => rpos = 1) /\ (tc = "inside" => tpos = 1)      \* no special element: the position does not matter
Next == UNCHANGED vars

RAccepted == UsesR(me) => ~BadR(rc)
ShapesMatch == (UsesR(me) /\ UsesTheta(me)) => (Scalar(rk) \/ Scalar(tk) \/ ShapeOf(rk) = ShapeOf(tk))
Outcome == IF RAccepted /\ ShapesMatch THEN "ok" ELSE "ValueError"
ResultShape == IF ~UsesTheta(me) THEN ShapeOf(rk) ELSE IF ~UsesR(me) THEN ShapeOf(tk) ELSE IF Scalar(rk) THEN ShapeOf(tk) ELSE ShapeOf(rk)
Warns == UsesTheta(me) /\ OutT(tc) /\ Outcome = "ok"

(* angles never cause a rejection by themselves *)
AnglesFree == (RAccepted /\ ShapesMatch) => Outcome = "ok"
ScalarOnlyFromScalars == (Outcome = "ok" /\ ResultShape = <<>>) => (Scalar(rk) /\ Scalar(tk)) \/ ~UsesR(me) \/ ~UsesTheta(me)
Emit == PrintT(ToJson([me |-> me, p |-> p, rk |-> rk, rc |-> rc, rpos |-> rpos, tk |-> tk, tc |-> tc, tpos |-> tpos,
                       out |-> Outcome, shape |-> ResultShape, warn |-> Warns]))
=================================================================================
