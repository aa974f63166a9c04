-------------------------------- MODULE PhaseGeom --------------------------------
(* Geometry of generated phase images: the disk of radius 1 + min(h, w) div 2 around the pixel (h div 2, w div 2); rows point down,           *)
(* angles are counted counterclockwise from the columns' axis.  The machine scans the image pixel by pixel like a raster.                     *)
EXTENDS ZernDefs, TLC, Json
CONSTANTS Sizes
VARIABLES h, w, row, line        \* line: offsets of the pixels of the current row: <<dy up, dx right>> or <<>> outside
vars == <<h, w, row, line>>
R == 1 + Min2(h, w) \div 2
Cell(hh, ww, i, j) == LET u == hh \div 2 - i  v == j - ww \div 2 r == 1 + Min2(hh, ww) \div 2 IN IF u * u + v * v <= r * r THEN <<u, v>> ELSE <<>>
Line(hh, ww, i) == [j \in 1..ww |-> Cell(hh, ww, i, j - 1)]
Init == h \in Sizes /\ w \in Sizes /\ row = 0 /\ line = Line(h, w, 0)
Next == row < h - 1 /\ row' = row + 1 /\ line' = Line(h, w, row + 1) /\ UNCHANGED <<h, w>>
InDisk == \A j \in 1..w : line[j] # <<>> => line[j][1] * line[j][1] + line[j][2] * line[j][2] <= R * R
Convex == \A a, b, c \in 1..w : (a < b /\ b < c /\ line[a] # <<>> /\ line[c] # <<>>) => line[b] # <<>>
CentreIn == row = h \div 2 => line[w \div 2 + 1] = <<0, 0>>
Emit == PrintT(ToJson([h |-> h, w |-> w, row |-> row, line |-> line, R |-> R]))
==================================================================================
