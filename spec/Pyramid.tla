------------------------------- MODULE Pyramid -------------------------------
(* The half pyramid of polynomials: a raster of cells filled in reading order with the polynomials of the OSA list, after piston.  Row i (from the top, *)
(* 1-based) leaves all but its last i+1 cells empty; the invariant tells what a reader relies on: a row shows exactly the polynomials of one order,      *)
(* ordered by the azimuthal order, and the last row is full.                                                                                            *)
EXTENDS ZernDefs, TLC, Json
CONSTANTS Rows
Cols == Rows + 1
VARIABLES i, j, k, shown          \* next cell, next index, filled cells
vars == <<i, j, k, shown>>
Init == i = 1 /\ j = 1 /\ k = 1 /\ shown = << >>
Skip == j <= Cols - (i + 1)
Next == /\ i <= Rows
        /\ shown' = IF Skip THEN shown ELSE Append(shown, [row |-> i - 1, col |-> j - 1, osa |-> k, m |-> OSAInverse(k)[1], n |-> OSAInverse(k)[2]])
        /\ k' = IF Skip THEN k ELSE k + 1
        /\ IF j = Cols THEN i' = i + 1 /\ j' = 1 ELSE i' = i /\ j' = j + 1
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RowIsOrder == \A x \in 1..Len(shown) : LET c == shown[x] IN c.n = c.row + 1 /\ c.m = 2 * (c.col - (Cols - c.row - 2)) - c.n
Complete == i > Rows => /\ k = (Cols * (Cols + 1)) \div 2
                        /\ \A n \in 1..Rows : {c \in {shown[x] : x \in 1..Len(shown)} : c.n = n} = {c \in {shown[x] : x \in 1..Len(shown)} : c.row = n - 1}
                        /\ PrintT(ToJson([cells |-> shown]))
Ends == <>(i > Rows)
=================================================================================
