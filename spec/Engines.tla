-------------------------------- MODULE Engines --------------------------------
(* Which calculation is performed for a request and with which outcome.  A request: kind of the aberration, presence of an order above 10,    *)
(* the calculation asked for, normalisation, and the state of the workers.  The machine walks over requests from one to the next               *)
(* changing one feature at a time (so that histories of requests on the same object are covered).                                               *)
EXTENDS Integers, TLC, Json
CONSTANT Numba                                          \* is the optional numba library there?
Kinds == {"piston", "single", "one-term", "several", "several+piston", "zero-padded"}
Calls == {"plain", "accelerated", "default", "parallel-idle", "parallel-workers", "loops"}    \* loops: the function get_psf_kernel of the calculations, point by point
Alone == {"piston", "single", "one-term"}               \* loops are made for one polynomial
Grids == {"coarse", "fine radius", "fine angle"}      \* of the nodes of the integration
VARIABLES kind, high, call, norm, size, grid
vars == <<kind, high, call, norm, size, grid>>
Sizes == {3, 5}
Valid(kd, h) == ~(h /\ kd = "piston")
Init == kind = "single" /\ high = FALSE /\ call = "plain" /\ norm = FALSE /\ size = 3 /\ grid = "coarse"
Next == \/ \E x \in Kinds : Valid(x, high) /\ (call = "loops" => x \in Alone) /\ kind' = x /\ UNCHANGED <<high, call, norm, size, grid>>
        \/ \E x \in BOOLEAN : Valid(kind, x) /\ high' = x /\ UNCHANGED <<kind, call, norm, size, grid>>
        \/ \E x \in Calls : (x = "loops" => kind \in Alone) /\ call' = x /\ UNCHANGED <<kind, high, norm, size, grid>>
        \/ \E x \in BOOLEAN : norm' = x /\ UNCHANGED <<kind, high, call, size, grid>>
        \/ \E x \in Sizes : (grid = "coarse" \/ x = 3) /\ size' = x /\ UNCHANGED <<kind, high, call, norm, grid>>
        \/ \E x \in Grids : (size = 3 \/ x = "coarse") /\ grid' = x /\ UNCHANGED <<kind, high, call, norm, size>>
(* with numba the default request is the accelerated one; without it every request is calculated by the plain calculation *)
Engine == CASE call \in {"accelerated", "default"} /\ Numba -> "compiled"
            [] call = "plain" \/ (call \in {"accelerated", "default"} /\ ~Numba) -> IF kind = "piston" THEN "closed" ELSE "plain"
            [] call = "parallel-idle" -> "points"
            [] call = "loops" -> "loops"
            [] call = "parallel-workers" -> IF kind \in {"single", "one-term"} THEN "workers" ELSE "points"
(* the accelerated calculation has no formulas above the order 10: it is refused, never computed by anything else *)
Outcome == IF high /\ Engine = "compiled" THEN "ValueError" ELSE "kernel"
(* what the kernel has to be: the closed Airy form or the quadrature sum of the sum of the terms *)
Value == IF Engine = "closed" THEN "airy" ELSE "sum"
OneReference == (Outcome = "kernel" /\ Value = "airy") => kind = "piston" /\ (call = "plain" \/ ~Numba)
RefusedOnlyHigh == Outcome = "ValueError" => high /\ Numba
Emit == PrintT(ToJson([kind |-> kind, high |-> high, call |-> call, norm |-> norm, size |-> size, grid |-> grid, engine |-> Engine, out |-> Outcome, value |-> Value]))
=================================================================================
