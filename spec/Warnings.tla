------------------------------- MODULE Warnings -------------------------------
(* Warnings as outputs.  Two machines side by side: an object that calculates kernels and a polynomial that is evaluated.  Every step emits a set of    *)
(* warning kinds; it is determined by the configuration and the request alone (no step leaves a warning for a later one to emit), except the warning     *)
(* about slow evaluation, which a polynomial gives once in its life.  A suppressed calculation emits nothing and calculates the same.                   *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS Machine,                 \* "psf" or "pol"
          Orders,                  \* radial orders of the polynomials
          Single,                  \* one polynomial (several have no default amplitudes)
          Numba                    \* is the optional numba library there?
(* ---- kernels -------------------------------------------------------------------------------------------------------------------------------------- *)
Rel == {"below", "equal", "above", "huge"}      \* relation of the size to the estimation made with the last physical properties; huge: above 85 pixels
VARIABLES phys,        \* have physical properties been given?
          size,        \* the size in use, related to the estimation ("none" before any)
          order, told, \* the polynomial: its order, and whether it has told that it is slow
          emitted, last
vars == <<phys, size, order, told, emitted, last>>
View == <<phys, size, order, told>>
Init == /\ phys = FALSE /\ size = "none" /\ told = FALSE /\ emitted = {} /\ last = <<"none">>
        /\ order \in (IF Machine = "pol" THEN Orders ELSE {0})
(* amplitudes in wavelengths: ok, exactly ten, above ten (of either sign); bad: refused properties *)
Amps == {"ok", "ten", "minus ten", "above", "minus above", "bad"}
SetPhys(a) == /\ emitted' = IF a \in {"above", "minus above"} THEN {"amplitude"} ELSE {}
              /\ IF a = "bad" THEN UNCHANGED <<phys, size>> ELSE phys' = TRUE /\ size' = "equal"
              /\ UNCHANGED <<order, told>> /\ last' = <<"phys", a>>
(* numbers of points: usual, many radii (above 500) only, many angles (above 400) only, both, exactly the two limits; bad: refused *)
Points == {"usual", "radii", "angles", "both", "limits", "bad"}
SetCalc(s, p) == /\ emitted' = IF p = "bad" THEN {}
                               ELSE (IF ~phys THEN {"no estimation"} ELSE IF s = "below" THEN {"truncation possible"} ELSE {})
                                    \union (IF p = "both" THEN {"too precise"} ELSE {})
                 /\ size' = IF p = "bad" THEN size ELSE s
                 /\ UNCHANGED <<phys, order, told>> /\ last' = <<"calc", s, p>>
(* the border of the kernel tells whether its frame cuts it *)
Asks == {"plain", "accelerated", "default"}          \* by default, the calculation is accelerated if it's possible and nothing is told if it isn't
Calculate(quiet, ask, cut) ==
   LET compiled == Numba /\ ask # "plain" IN
   /\ phys \/ Single
   /\ size # "none"                                 \* default sizes take too long to be calculated here
   /\ size = "huge" => compiled
   /\ emitted' = IF quiet THEN {}
                 ELSE (IF ~phys THEN {"defaults in use"} ELSE {}) \union (IF compiled /\ size = "huge" THEN {"long"} ELSE {}) \union (IF cut THEN {"cut"} ELSE {})
                      \union (IF ask = "accelerated" /\ ~Numba THEN {"no acceleration"} ELSE {})
   /\ UNCHANGED <<phys, size, order, told>> /\ last' = <<"kernel", quiet, ask, cut>>
(* compilation on demand: touches no object *)
Precompile == /\ emitted' = (IF Numba THEN {} ELSE {"no acceleration"})
              /\ UNCHANGED <<phys, size, order, told>> /\ last' = <<"precompile">>
PsfNext == \/ \E a \in Amps : SetPhys(a)
           \/ \E s \in Rel, p \in Points : SetCalc(s, p)
           \/ \E q, t \in BOOLEAN, a \in Asks : Calculate(q, a, t)
           \/ Precompile
(* ---- evaluation ----------------------------------------------------------------------------------------------------------------------------------- *)
Ways == {"value", "radial", "derivative"}
SlowAbove(w) == IF w = "derivative" THEN 48 ELSE 50
ExactUpTo(w) == IF w = "derivative" THEN 38 ELSE 40
Evaluate(w, exact) ==
   /\ emitted' = IF exact THEN IF order > ExactUpTo(w) THEN {"not exact"} ELSE {}
                 ELSE IF order > SlowAbove(w) /\ ~told THEN {"slow"} ELSE {}
   /\ told' = (told \/ "slow" \in emitted')
   /\ UNCHANGED <<phys, size, order>> /\ last' = <<"evaluate", w, exact>>
Angular == emitted' = {} /\ UNCHANGED <<phys, size, order, told>> /\ last' = <<"angular">>
PolNext == (\E w \in Ways, e \in BOOLEAN : Evaluate(w, e)) \/ Angular
(* ---- collections of polynomials -------------------------------------------------------------------------------------------------------------------- *)
(* all polynomials up to an order: a number that isn't a whole one is converted, and both facts are told *)
Generate(n, whole) == /\ emitted' = (IF whole THEN {} ELSE {"converted"}) \union (IF n > 30 THEN {"slow orders"} ELSE {})
                      /\ UNCHANGED <<phys, size, order, told>> /\ last' = <<"generate", n, whole>>
GenNext == \E n \in {-2, 0, 1, 12, 13, 30, 31, 33}, w \in BOOLEAN : Generate(n, w)
Next == CASE Machine = "psf" -> PsfNext [] Machine = "pol" -> PolNext [] Machine = "all" -> GenNext
(* ---- what a user relies on ------------------------------------------------------------------------------------------------------------------------- *)
Silenced == [][(last'[1] = "kernel" /\ last'[2]) => emitted' = {}]_vars
CutIsTold == [][(last'[1] = "kernel" /\ ~last'[2] /\ last'[4]) => "cut" \in emitted']_vars
DefaultsTold == [][(last'[1] = "kernel" /\ ~last'[2] /\ ~phys) => "defaults in use" \in emitted']_vars
WrongNotSilent == [][(last'[1] = "evaluate" /\ last'[3] /\ order > ExactUpTo(last'[2])) => emitted' # {}]_vars
AccelerationTold == [][(last'[1] = "kernel" /\ ~last'[2] /\ last'[3] = "accelerated" /\ ~Numba) => "no acceleration" \in emitted']_vars
SlowOnce == [][("slow" \in emitted') => (~told /\ told')]_vars
ToldStays == [][told => told']_vars
Edge == PrintT(ToJson([f |-> View, a |-> last', t |-> <<phys', size', order', told'>>, e |-> emitted']))
=================================================================================
