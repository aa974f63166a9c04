------------------------------- MODULE PSFConfig -------------------------------
(* Configuration of a PSF object: two setters with validation.  All quantities are integers: NA in 1/100, lengths in nm.  A call is accepted   *)
(* exactly if all of its arguments are in the documented ranges; a rejected call changes nothing; an accepted one replaces its part of the          *)
(* configuration as a whole.                                                                                                                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NPols              \* 1: single polynomial; otherwise the number of polynomials
(* calls of the setter of physical properties: aperture, wavelength, shape and values of coefficients, relation of the pixel to the limit *)
NAs == {-10, 0, 50, 100, 170, 171}
Wls == {-500, 0, 500, 600}
Scalars == {<<"scalar", 200>>, <<"scalar", -300>>, <<"scalar", 6500>>, <<"int", 1000>>}
Seqs == {<<"seq0">>, <<"seq1", 200>>, <<"seq2", 200, -150>>, <<"seq3", 50, 100, -200>>, <<"seq2", -100, 0>>, <<"seq2i", 0, 1000>>}
Coefs == Scalars \cup Seqs
Pixels == {"neg", "zero", "half", "limit", "above"}
(* pixel in 1/1000 nm: limit = 0.25 wavelength / NA *)
PixOf(na, wl, rel) == CASE rel = "neg" -> -1000 [] rel = "zero" -> 0 [] rel = "half" -> 12000
                        [] rel = "limit" -> IF na <= 0 \/ wl <= 0 THEN 50000 ELSE IF na \in {50, 100} THEN (25000 * wl) \div na ELSE (25000 * wl) \div na - 20
                        [] rel = "above" -> IF na <= 0 \/ wl <= 0 THEN 50000 ELSE (25000 * wl) \div na + 20
PhysCalls == {<<na, wl, c, p>> : na \in NAs, wl \in Wls, c \in Coefs, p \in Pixels}
NBad(c) == (IF c[1] \in {-10, 0, 171} THEN 1 ELSE 0) + (IF c[2] <= 0 THEN 1 ELSE 0) + (IF c[4] \in {"neg", "zero", "above"} THEN 1 ELSE 0)
CoefOK(c) == IF NPols = 1 THEN c[1] \in {"scalar", "int", "seq1"} ELSE IF NPols = 2 THEN c[1] \in {"seq2", "seq2i"} ELSE c[1] = "seq3"
PhysOK(c) == c[1] > 0 /\ c[1] <= 170 /\ c[2] > 0 /\ CoefOK(c[3]) /\ PixOf(c[1], c[2], c[4]) > 0
             /\ PixOf(c[1], c[2], c[4]) * c[1] <= 25000 * c[2]
(* calls used: all accepted ones and those with exactly one or two faults *)
UsedPhys == {c \in PhysCalls : LET faults == NBad(c) + (IF CoefOK(c[3]) THEN 0 ELSE 1) IN
               \/ faults = 0 /\ (c[4] = "half" \/ c[2] = 500)
               \/ faults = 1 /\ c[1] \in {-10, 0, 100, 171} /\ c[2] \in {-500, 0, 500} /\ c[4] \in {"neg", "zero", "above", "half"}}
CalcCalls == {<<s, r, f>> : s \in {-3, 2, 3, 4, 5, 8}, r \in {19, 20, 33}, f \in {35, 36, 41, 50}}
CalcOK(c) == c[1] >= 3 /\ c[2] >= 20 /\ c[3] >= 36
Odd(s) == IF s % 2 = 0 THEN s + 1 ELSE s
EvenUp(f) == IF f % 2 = 1 THEN f + 1 ELSE f

VARIABLES phys,           \* <<>> or the last accepted arguments
          size,           \* "initial", "estimated" or a number
          nodes,          \* <<NR, NPhi>>
          last            \* the last call and its outcome
View == <<phys, size, nodes>>
Init == phys = <<>> /\ size = "initial" /\ nodes = <<320, 300>> /\ last = <<"new">>
SetPhys(c) == IF PhysOK(c)
              THEN phys' = c /\ size' = "estimated" /\ nodes' = nodes /\ last' = <<"phys", c, PixOf(c[1], c[2], c[4]), "ok">>
              ELSE UNCHANGED <<phys, size, nodes>> /\ last' = <<"phys", c, PixOf(c[1], c[2], c[4]), "ValueError">>
SetCalc(c) == IF CalcOK(c)
              THEN size' = ToString(Odd(c[1])) /\ nodes' = <<c[2], EvenUp(c[3])>> /\ phys' = phys /\ last' = <<"calc", c, "ok">>
              ELSE UNCHANGED <<phys, size, nodes>> /\ last' = <<"calc", c, "ValueError">>
Next == (\E c \in UsedPhys : SetPhys(c)) \/ (\E c \in CalcCalls : SetCalc(c))
(* invariants of reachable configurations *)
Sane == /\ phys # <<>> => PhysOK(phys)
        /\ size # "initial" \/ phys = <<>>
        /\ nodes[2] % 2 = 0 /\ nodes[1] >= 20 /\ nodes[2] >= 36
Atomic == [][(last'[Len(last')] = "ValueError") => UNCHANGED <<phys, size, nodes>>]_<<phys, size, nodes, last>>
Independent == [][(last'[1] = "calc" => phys' = phys) /\ (last'[1] = "phys" => nodes' = nodes)]_<<phys, size, nodes, last>>
Edge == PrintT(ToJson([f |-> View, a |-> last', t |-> View']))
=================================================================================
