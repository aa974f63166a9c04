-------------------------------- MODULE CropGeom --------------------------------
(* Geometry of the circular crop of an image for fitting, in integers: doubled offsets from the image centre, squares of distances.          *)
(* A pixel is decided inside / outside, or left undecided if it is nearer to the border than the (4 digits) rounding of the radii.             *)
EXTENDS ZernDefs, TLC, Json
CONSTANTS Sizes, Crops           \* image heights/widths; crop radii in thousandths
VARIABLES h, w, crop, strict
vars == <<h, w, crop, strict>>
Init == h \in Sizes /\ w \in Sizes /\ crop \in Crops /\ strict \in BOOLEAN
Next == UNCHANGED vars

Small == Min2(h, w)
Large == Max2(h, w)
Legal == Small >= 3 /\ crop >= 500 /\ crop <= 1000
DY(i) == 2 * i - (h - 1)         \* i, j from 0; the row axis points down
DX(j) == 2 * j - (w - 1)
D(i, j) == DY(i) * DY(i) + DX(j) * DX(j)
R2 == IF Large - Small < 2 THEN Large - 1 ELSE Small - 1       \* doubled radius of the largest circle (the larger side if they differ by one)
Eps == IF ~strict /\ ((h % 2 = 0 /\ w % 2 = 0) \/ Abs(h - w) = 1) THEN 55 ELSE 1
(* d is compared with a * R2^2 / 10^6 in parts of three digits: integers of TLC have 32 bits *)
Below(d, a) == d * 1000 - (a \div 1000) * R2 * R2 <= (((a % 1000) * R2 * R2) - 1) \div 1000       \* d < a * R2^2 / 10^6
Above(d, a) == d * 1000 - (a \div 1000) * R2 * R2 > ((a % 1000) * R2 * R2) \div 1000            \* d > a * R2^2 / 10^6
Limit == (crop + Eps) * (crop + Eps)
Slack == 150
Inside(i, j) == Below(D(i, j), Limit - Slack)
Outside(i, j) == Above(D(i, j), Limit + Slack)
Pix == (0..(h - 1)) \X (0..(w - 1))
In == {p \in Pix : Inside(p[1], p[2])}
Out == {p \in Pix : Outside(p[1], p[2])}
Und == Pix \ (In \cup Out)
MaxD == LET ds == {D(p[1], p[2]) : p \in In} IN CHOOSE x \in ds : \A y \in ds : y <= x
(* radii are divided so that none is larger than 1 *)
Unit == Max2(R2 * R2, MaxD)

(* the decided sets have the symmetries of the rectangle and are nested in the crop radius *)
Symmetric == Legal => \A p \in Pix : Inside(p[1], p[2]) <=> Inside(h - 1 - p[1], p[2]) /\ Inside(p[1], w - 1 - p[2])
SquareTranspose == (Legal /\ h = w) => \A p \in Pix : Inside(p[1], p[2]) <=> Inside(p[2], p[1])
NotEmpty == Legal => In # {}
CentreIn == Legal => \A p \in Pix : (D(p[1], p[2]) <= 2) => Inside(p[1], p[2])
(* the border rows of the shorter axis touch the circle: for a full crop of an odd square the four mid-border pixels are inside *)
TouchesBorder == (Legal /\ h = w /\ h % 2 = 1 /\ crop = 1000) => Inside(0, (w - 1) \div 2) /\ Inside((h - 1) \div 2, 0)
Emit == PrintT(ToJson([h |-> h, w |-> w, crop |-> crop, strict |-> strict, ok |-> Legal,
          inn |-> IF Legal THEN In ELSE {}, und |-> IF Legal THEN Und ELSE {}, unit |-> IF Legal THEN Unit ELSE 0,
          warn |-> (h # w \/ h % 2 = 0 \/ w % 2 = 0)]))
=================================================================================
