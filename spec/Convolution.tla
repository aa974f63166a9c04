------------------------------- MODULE Convolution -------------------------------
(* Mirror-boundary convolution in one dimension as an index map: output i receives, through the kernel tap p (0 .. s-1, centre s div 2), the       *)
(* sample at position i - (p - centre) of the line mirrored at its ends (the end sample is repeated).  The two-dimensional convolution is the         *)
(* product of the maps of rows and columns.  The machine fills the map output by output.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Lengths, KernelSizes
VARIABLES n, s, map
vars == <<n, s, map>>
Mirror(x, len) == LET y == x % (2 * len) IN IF y < len THEN y ELSE (2 * len) - 1 - y
C == s \div 2
Src(i, p) == Mirror(i - (p - C), n)
Init == n \in Lengths /\ s \in KernelSizes /\ map = <<>>
Next == Len(map) < n /\ map' = Append(map, [p \in 1..s |-> Src(Len(map), p - 1)]) /\ UNCHANGED <<n, s>>
Done == Len(map) = n
InRange == \A i \in DOMAIN map : \A p \in 1..s : map[i][p] \in 0..(n - 1)
CentreTap == \A i \in DOMAIN map : map[i][C + 1] = i - 1
(* interior samples are plain shifts, in the direction of a convolution *)
Shift == \A i \in DOMAIN map : \A p \in 1..s : LET x == (i - 1) - (p - 1 - C) IN (x \in 0..(n - 1)) => map[i][p] = x
(* mirrored: reversing the line and the kernel reverses the output *)
Reversal == Done => \A i \in 1..n : \A p \in 1..s : map[n + 1 - i][s + 1 - p] = n - 1 - map[i][p]
(* opposite taps together move every sample twice: a symmetric kernel conserves the total *)
Conserve == Done => \A p \in 1..s : \A a \in 0..(n - 1) :
               Cardinality({i \in 1..n : map[i][p] = a}) + Cardinality({i \in 1..n : map[i][s + 1 - p] = a}) = 2
Emit == Done => PrintT(ToJson([n |-> n, s |-> s, map |-> map]))
=================================================================================
