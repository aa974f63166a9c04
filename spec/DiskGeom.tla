-------------------------------- MODULE DiskGeom --------------------------------
(* Geometry of the sample disk shown with its convolution (ZernPSF.visualize_convolution), in integers: the radius is q / 16 pixels, pixels are      *)
(* offsets (i, j) from the centre, distances are compared by their squares.  A pixel is "full" (maximum intensity), "body" (inside of the disk,      *)
(* nearly full), "edge" (falls from the body to zero) or "zero".  The machine draws one octant (0 <= j <= i) column by column; the others are        *)
(* its images, because a class depends only on the distance.                                                                                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Radii                \* in sixteenths of a pixel
VARIABLES q, cols
vars == <<q, cols>>
Rad == IF q < 16 THEN 16 ELSE q                         \* smaller disks are drawn as the one with the radius of one pixel
(* the nearest whole number, halves to the even one *)
Round(x) == LET f == x \div 16 r == x % 16 IN IF (r > 8) \/ (r = 8 /\ f % 2 = 1) THEN f + 1 ELSE f
Half == 2 * Round(Rad)
D2(i, j) == (i * i) + (j * j)
(* full: distance < r/4;  body: up to r;  zero: distance >= 5r/4 *)
Class(x) == IF 4096 * x < Rad * Rad THEN "full" ELSE IF 256 * x <= Rad * Rad THEN "body" ELSE IF 4096 * x >= 25 * Rad * Rad THEN "zero" ELSE "edge"
Rank(c) == CASE c = "full" -> 0 [] c = "body" -> 1 [] c = "edge" -> 2 [] c = "zero" -> 3
Init == q \in Radii /\ cols = <<>>
I == Len(cols)
Next == I <= Half /\ cols' = Append(cols, [j \in 1..(I + 1) |-> Class(D2(I, j - 1))]) /\ UNCHANGED q
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == I > Half
CentreFull == I > 0 => cols[1][1] = "full"
(* farther pixels are never in an inner class: compared with all columns drawn before *)
Outwards == I > 0 => \A j \in 1..I : \A a \in 1..I : \A b \in 1..a :
               (D2(a - 1, b - 1) <= D2(I - 1, j - 1) => Rank(cols[a][b]) <= Rank(cols[I][j]))
(* the disk with its blurred edge is completely inside of the image: there is a dark frame around *)
Frame == Done => \A j \in 1..(Half + 1) : cols[Half + 1][j] = "zero"
(* pixels at the distance of the radius along an axis are bright, disks of a whole number of pixels have the diameter of 2 r + 1 bright ones *)
Diameter == (Done /\ q % 16 = 0 /\ q > 0) => LET r == q \div 16 IN Rank(cols[r + 1][1]) <= 1 /\ Rank(cols[r + 2][1]) >= 2
Terminates == <>Done
Emit == Done => PrintT(ToJson([q |-> q, half |-> Half, cols |-> cols]))
=================================================================================
