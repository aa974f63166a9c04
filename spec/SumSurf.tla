--------------------------------- MODULE SumSurf ---------------------------------
(* Weighted sums of polynomials as formal sums.  A term is <<coefficient, polynomial id>>; V(p, i, j) is the (uninterpreted) value of the      *)
(* polynomial p at the i-th radius and the j-th angle.  The machine appends terms; the state is the formal sum requested so far, together     *)
(* with the coordinate layout.                                                                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Coefs, Pols, MaxTerms
NotAPol == 0                       \* id of a member that is not a polynomial

(* layouts: lengths of r and theta; 0 = scalar; surface flag *)
Layouts == {<<0, 0, FALSE>>, <<3, 0, FALSE>>, <<0, 3, FALSE>>, <<3, 3, FALSE>>, <<2, 3, FALSE>>, <<3, 2, FALSE>>,
            <<0, 0, TRUE>>, <<1, 3, TRUE>>, <<3, 1, TRUE>>, <<2, 2, TRUE>>, <<2, 4, TRUE>>, <<4, 2, TRUE>>, <<1, 1, TRUE>>, <<3, 4, TRUE>>, <<5, 3, TRUE>>}
VARIABLES terms, layout, extra     \* extra: surplus of coefficients over polynomials (mismatched lengths)
vars == <<terms, layout, extra>>

Init == terms = <<>> /\ layout \in Layouts /\ extra \in {-1, 0, 1}
Next == /\ Len(terms) < MaxTerms /\ \E c \in Coefs, p \in Pols \cup {NotAPol} : terms' = Append(terms, <<c, p>>)
        /\ UNCHANGED <<layout, extra>>
(* keep the table small: failures are combined with few layouts only *)
Bound == /\ (extra # 0 => Len(terms) <= 2 /\ layout \in {<<3, 3, FALSE>>, <<2, 4, TRUE>>})
         /\ (\E i \in 1..Len(terms) : terms[i][2] = NotAPol) => (layout \in {<<0, 0, FALSE>>, <<3, 3, FALSE>>, <<4, 2, TRUE>>} /\ Len(terms) <= 2)

NR == layout[1]
NT == layout[2]
Surface == layout[3] /\ NR > 0 /\ NT > 0
Shape == IF Surface THEN <<NR, NT>> ELSE IF NR = 0 /\ NT = 0 THEN <<>> ELSE IF NR = 0 THEN <<NT>> ELSE <<NR>>
Outcome == IF extra # 0 \/ Len(terms) = 0 \/ (\E i \in 1..Len(terms) : terms[i][2] = NotAPol) THEN "ValueError"
           ELSE IF ~Surface /\ NR > 0 /\ NT > 0 /\ NR # NT THEN "ValueError" ELSE "ok"
(* cell of the result -> (index of radius, index of angle), 1-based, 1 for scalars *)
Cells == IF Surface THEN {<<<<i, j>>, i, j>> : i \in 1..NR, j \in 1..NT}
         ELSE IF Shape = <<>> THEN {<<<<>>, 1, 1>>}
         ELSE {<<<<i>>, IF NR = 0 THEN 1 ELSE i, IF NT = 0 THEN 1 ELSE i>> : i \in 1..Shape[1]}
(* the collected weight of every polynomial: the meaning of the formal sum *)
RECURSIVE Weight(_, _)
Weight(p, s) == IF s = <<>> THEN 0 ELSE (IF s[1][2] = p THEN s[1][1] ELSE 0) + Weight(p, Tail(s))
Weights == [p \in Pols |-> Weight(p, terms)]
NonZero(s) == SelectSeq(s, LAMBDA t : t[1] # 0)
(* zero coefficients do not matter wherever they stand; order does not matter *)
ZeroIrrelevant == \A p \in Pols : Weight(p, NonZero(terms)) = Weight(p, terms)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderIrrelevant == \A p \in Pols : Weight(p, Rev(terms)) = Weight(p, terms)
(* every cell depends on exactly one radius and one angle, and a surface uses each pair once *)
SurfaceBijective == Surface => Cardinality({<<c[2], c[3]>> : c \in Cells}) = NR * NT
Emit == Bound => PrintT(ToJson([t |-> terms, nr |-> NR, nt |-> NT, surf |-> layout[3], extra |-> extra, out |-> Outcome, shape |-> Shape, cells |-> Cells,
                                w |-> {<<p, Weights[p]>> : p \in Pols}]))
==================================================================================
