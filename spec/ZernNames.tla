------------------------------- MODULE ZernNames -------------------------------
(* Conventional names of the polynomials, and the comparison relations on pairs of polynomials.                                         *)
EXTENDS ZernDefs, TLC, Json
CONSTANT Items             \* pairs of these polynomials (OSA indices, 0 among them) are compared

VARIABLES a, b             \* two polynomials as OSA indices
Init == a \in Items /\ b = 0
Next == /\ b < CHOOSE x \in Items : \A y \in Items : y <= x
        /\ b' = CHOOSE x \in Items : x > b /\ \A y \in Items : y > b => x <= y
        /\ a' = a

Equal(x, y) == OSAInverse(x) = OSAInverse(y)
Greater(x, y) == LET p == OSAInverse(x) q == OSAInverse(y) IN p[2] > q[2] \/ (p[2] = q[2] /\ p[1] > q[1])
(* strict total order, consistent with equality *)
Trichotomy == /\ Equal(a, b) <=> a = b
              /\ Greater(a, b) <=> a > b
              /\ (IF Equal(a, b) THEN 1 ELSE 0) + (IF Greater(a, b) THEN 1 ELSE 0) + (IF Greater(b, a) THEN 1 ELSE 0) = 1

(* ---- conventional names: a grammar  [orientation] [level] family  for radial orders up to 7 ------------------------------------------ *)
NamedOrder == 7
Family(l, n, short) == CASE l = 0 /\ n = 0 -> "Piston" [] l = 0 /\ n = 2 -> "Defocus" [] l = 0 /\ n > 2 -> IF short /\ n = 4 THEN "Spherical" ELSE "spherical"
     [] l = 1 /\ n = 1 -> "tilt" [] l = 1 /\ n > 1 -> "coma"
     [] l = 2 -> IF ~short THEN "astigmatism" ELSE IF n = 2 THEN "astigm." ELSE "ast."
     [] l = 3 -> IF short THEN "3foil" ELSE "trefoil"     [] l = 4 -> IF short THEN "4foil" ELSE "quadrafoil"
     [] l = 5 -> IF short THEN "5foil" ELSE "pentafoil"   [] l = 6 -> IF short THEN "6foil" ELSE "sexfoil"
     [] l = 7 -> IF short THEN "7foil" ELSE "septfoil"
(* orientation: for the tilts and comas vertical (sine) / horizontal (cosine), otherwise the odd orders have the sine, the even ones the cosine upright *)
Orientation(m, short) == LET v == IF short THEN "Vert." ELSE "Vertical"
                             h == IF short THEN "Hor." ELSE "Horizontal"
                             o == IF short THEN "Obliq." ELSE "Oblique"
    IN IF m = 0 THEN "" ELSE IF Abs(m) = 1 THEN (IF m < 0 THEN v ELSE h)
       ELSE IF (Abs(m) % 2 = 1) = (m < 0) THEN v ELSE o
(* how many polynomials of the same family have lower order *)
Repeat(l, n) == IF l = 0 THEN (n - 4) \div 2 ELSE IF l = 1 THEN (n - 3) \div 2 ELSE (n - l) \div 2
Level(l, n, short) == LET k == Repeat(l, n) IN
       IF l = 0 THEN (IF n < 4 THEN "" ELSE IF k = 0 THEN (IF short THEN "" ELSE "Primary") ELSE IF short THEN "2d" ELSE "Secondary")
       ELSE IF k <= 0 THEN "" ELSE IF k = 1 THEN (IF short THEN "2d" ELSE "secondary") ELSE (IF short THEN "3d" ELSE "thirdly")
Name(m, n, short) == IF n > NamedOrder THEN <<>> ELSE <<Orientation(m, short), Level(Abs(m), n, short), Family(Abs(m), n, short)>>
NamesUnique == LET p == OSAInverse(a) q == OSAInverse(b) IN
       (a # b /\ p[2] <= NamedOrder /\ q[2] <= NamedOrder) => (Name(p[1], p[2], FALSE) # Name(q[1], q[2], FALSE) /\ Name(p[1], p[2], TRUE) # Name(q[1], q[2], TRUE))

Emit == /\ PrintT(ToJson([a |-> a, b |-> b, eq |-> Equal(a, b), gt |-> Greater(a, b)]))
        /\ (b = 0) => LET p == OSAInverse(a) IN PrintT(ToJson([m |-> p[1], n |-> p[2], full |-> Name(p[1], p[2], FALSE), short |-> Name(p[1], p[2], TRUE)]))
================================================================================
