-------------------------------- MODULE CropLines --------------------------------
(* The crop of CropGeom scanned row by row, for images that are too large for sets of all their pixels.                                         *)
EXTENDS CropGeom
CONSTANTS Shapes                 \* pairs <<height, width>>
VARIABLES row, span              \* span: first and last column decided inside, first and last not decided outside (empty: <<>>)
lvars == <<h, w, crop, strict, row, span>>
Cols == 0..(w - 1)
(* the rows are symmetric, thus only the left half is scanned: the first column with the property, mirrored *)
First(Has(_)) == LET s == {j \in 0..((w - 1) \div 2) : Has(j)} IN IF s = {} THEN -1 ELSE CHOOSE j \in s : \A k \in s : j <= k
SpanOf(i) == LET InRow(j) == Inside(i, j)  OpenRow(j) == ~Outside(i, j)  a == First(InRow)  b == First(OpenRow) IN <<a, b>>
LInit == /\ \E s \in Shapes : h = s[1] /\ w = s[2]
         /\ crop \in Crops /\ strict \in BOOLEAN /\ Legal
         /\ row = 0 /\ span = SpanOf(0)
LNext == row < h - 1 /\ row' = row + 1 /\ span' = SpanOf(row + 1) /\ UNCHANGED <<h, w, crop, strict>>
(* an interval: all columns between the first one and its mirror image are inside; nothing before the first not decided one *)
Interval == span[1] # -1 => \A j \in Cols : Inside(row, j) <=> (span[1] <= j /\ j <= w - 1 - span[1])
OpenInterval == span[2] # -1 => \A j \in Cols : ~Outside(row, j) <=> (span[2] <= j /\ j <= w - 1 - span[2])
Nested == span[1] # -1 => (span[2] # -1 /\ span[2] <= span[1])
Mirror == SpanOf(row) = SpanOf(h - 1 - row)
LEmit == PrintT(ToJson([h |-> h, w |-> w, crop |-> crop, strict |-> strict, row |-> row, span |-> span, R2 |-> R2, eps |-> Eps]))
==================================================================================
