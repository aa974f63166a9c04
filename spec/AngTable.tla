-------------------------------- MODULE AngTable --------------------------------
(* Exact cos / sin at the multiples of 15 degrees in the ring Z[sqrt2, sqrt3] (values times 4: <<a, b, c, d>> = a + b sqrt2 + c sqrt3 +     *)
(* d sqrt6), and from them the angular part of the polynomials: cos(m theta) for m >= 0, sin(|m| theta) for m < 0, and its derivative.        *)
EXTENDS ZernDefs, TLC, Json
CONSTANT MaxM
VARIABLE m

(* 4 cos(j * 15 deg), j = 0 .. 6 *)
Quarter == <<<<4, 0, 0, 0>>, <<0, 1, 0, 1>>, <<0, 0, 2, 0>>, <<0, 2, 0, 0>>, <<2, 0, 0, 0>>, <<0, -1, 0, 1>>, <<0, 0, 0, 0>>>>
Neg(x) == <<-x[1], -x[2], -x[3], -x[4]>>
Scale(k, x) == <<k * x[1], k * x[2], k * x[3], k * x[4]>>
Plus(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4]>>
Times(x, y) == <<x[1] * y[1] + 2 * x[2] * y[2] + 3 * x[3] * y[3] + 6 * x[4] * y[4],
                 x[1] * y[2] + x[2] * y[1] + 3 * (x[3] * y[4] + x[4] * y[3]),
                 x[1] * y[3] + x[3] * y[1] + 2 * (x[2] * y[4] + x[4] * y[2]),
                 x[1] * y[4] + x[4] * y[1] + x[2] * y[3] + x[3] * y[2]>>
C(j) == LET q == j % 24 IN IF q <= 6 THEN Quarter[q + 1] ELSE IF q <= 12 THEN Neg(Quarter[13 - q]) ELSE IF q <= 18 THEN Neg(Quarter[q - 11]) ELSE Quarter[25 - q]
S(j) == C(j + 18)                                 \* sin x = cos(x - 90 deg)

Ang(mm, j) == IF mm >= 0 THEN C(mm * j) ELSE S(-mm * j)
(* d/dtheta: -m sin(m theta), |m| cos(|m| theta) *)
AngD(mm, j) == IF mm >= 0 THEN Scale(-mm, S(mm * j)) ELSE Scale(-mm, C(-mm * j))

Init == m = -MaxM
Next == m < MaxM /\ m' = m + 1

Steps == 0..24
Pythagoras == \A j \in Steps : Plus(Times(C(j), C(j)), Times(S(j), S(j))) = <<16, 0, 0, 0>>
(* 4 * 4cos(a+b) = (4cos a)(4cos b) - (4 sin a)(4 sin b): the table really is the cosine; with C(1) it fixes all values *)
AngleAddition == \A j \in Steps : /\ Scale(4, C(j + 1)) = Plus(Times(C(j), C(1)), Neg(Times(S(j), S(1))))
                                  /\ Scale(4, S(j + 1)) = Plus(Times(S(j), C(1)), Times(C(j), S(1)))
Parity == \A j \in Steps : Ang(m, 24 - j) = IF m >= 0 THEN Ang(m, j) ELSE Neg(Ang(m, j))
RECURSIVE Dot(_, _, _)
Dot(a, b, j) == IF j = 24 THEN <<0, 0, 0, 0>> ELSE Plus(Times(Ang(a, j), Ang(b, j)), Dot(a, b, j + 1))
(* angular parts of different m are orthogonal, mean square 1/2 (1 for m = 0), as long as the 24 angles resolve them *)
DiscreteOrthogonality == Abs(m) <= 11 => \A q \in -11..11 : Dot(m, q, 0) = IF q # m THEN <<0, 0, 0, 0>> ELSE <<IF m = 0 THEN 384 ELSE 192, 0, 0, 0>>
Emit == PrintT(ToJson([m |-> m, v |-> [j \in 1..25 |-> Ang(m, j - 1)], d |-> [j \in 1..25 |-> AngD(m, j - 1)]]))
=================================================================================
