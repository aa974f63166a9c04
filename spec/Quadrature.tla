------------------------------ MODULE Quadrature ------------------------------
(* Nodes and weights of the numerical diffraction integral: the composite trapezoidal rule on the pupil radius (nodes k/NR) and the        *)
(* composite Simpson rule on the pupil angle (nodes k/NPhi of a turn).  The machine walks over the nodes of a rule one by one and             *)
(* accumulates moments; at the end the exactness of the rule is decided exactly: the trapezoidal rule integrates linear functions and          *)
(* the Simpson rule cubic ones, and both rules have the right total weight.  Weights are integers over a common denominator:                     *)
(* trapezoid: w / (2 NR); Simpson: w / (3 NPhi).                                                                                                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NRs,                \* numbers of radial intervals
          NPhis               \* numbers of angular intervals, even
VARIABLES rule, n, k, w,      \* the rule, its number of intervals, current node and the list of weights so far
          s0, s1, s2, s3      \* moments sum w, sum w k, sum w k^2, sum w k^3
vars == <<rule, n, k, w, s0, s1, s2, s3>>
Weight(rl, nn, kk) == IF rl = "trapezoid" THEN (IF kk = 0 \/ kk = nn THEN 1 ELSE 2)
                      ELSE (IF kk = 0 \/ kk = nn THEN 1 ELSE IF kk % 2 = 1 THEN 4 ELSE 2)
Init == /\ \/ rule = "trapezoid" /\ n \in NRs
           \/ rule = "simpson" /\ n \in NPhis
        /\ k = -1 /\ w = <<>> /\ s0 = 0 /\ s1 = 0 /\ s2 = 0 /\ s3 = 0
Next == /\ k < n /\ k' = k + 1
        /\ LET v == Weight(rule, n, k + 1) q == k + 1 IN
           /\ w' = Append(w, v) /\ s0' = s0 + v /\ s1' = s1 + v * q
           /\ s2' = s2 + v * q * q
           /\ s3' = IF n <= 60 THEN s3 + v * q * q * q ELSE 0       \* within 32 bits
        /\ UNCHANGED <<rule, n>>
Done == k = n
(* integral over [0, n] with unit spacing: sum w f / 2 (trapezoid), sum w f / 3 (Simpson) *)
Total == Done => s0 = (IF rule = "trapezoid" THEN 2 ELSE 3) * n
Linear == Done => 2 * s1 = (IF rule = "trapezoid" THEN 2 ELSE 3) * n * n
Quadratic == (Done /\ n <= 400) => IF rule = "simpson" THEN s2 = n * n * n ELSE 3 * s2 = 2 * n * n * n + n   \* Euler-Maclaurin error n/6
Cubic == (Done /\ rule = "simpson" /\ n <= 60) => 4 * s3 = 3 * n * n * n * n
Even == rule = "simpson" => n % 2 = 0
(* the weights of the periodic rule are invariant under reflection, and under a quarter of turn exactly if a quarter holds an even number of nodes *)
W(q) == Weight(rule, n, q)
Folded(q) == IF q % n = 0 THEN 2 ELSE W(q % n)       \* the two ends are the same direction
Reflect == (Done /\ rule = "simpson") => \A q \in 0..n : Folded(q) = Folded(n - q)
Quarter == (Done /\ rule = "simpson" /\ n % 8 = 0) => \A q \in 0..n : Folded(q) = Folded(q + n \div 4)
HalfTurn == (Done /\ rule = "simpson" /\ n % 4 = 0) => \A q \in 0..n : Folded(q) = Folded(q + n \div 2)
Emit == Done => PrintT(ToJson([rule |-> rule, n |-> n, w |-> w]))
===============================================================================
