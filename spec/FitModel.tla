-------------------------------- MODULE FitModel --------------------------------
(* Fitting as linear algebra.  The design matrix has one row per point and one column per polynomial; values are computed exactly in the     *)
(* prime field F_P (P = 1 mod 24, so that sqrt2 and sqrt3 exist there), at radii a/8 and angles j*15 degrees.  Full rank modulo P implies full  *)
(* rank over the reals, hence the amplitudes are the unique solution of the fit.  The machine appends polynomials to the requested sequence.   *)
EXTENDS ZernDefs, SequencesExt, TLC, Json
CONSTANTS Ids,               \* OSA indices of the candidate polynomials
          MaxLen
P == 10009                   \* 10009 = 417 * 24 + 1, prime
Sqrt(q) == CHOOSE x \in 1..(P - 1) : (x * x) % P = q
Rt2 == Sqrt(2)
Rt3 == Sqrt(3)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE LET h == Pow(b, e \div 2) h2 == (h * h) % P IN IF e % 2 = 0 THEN h2 ELSE (h2 * b) % P
Inv(x) == Pow(x % P, P - 2)
Mod(x) == ((x % P) + P) % P
(* cosines of j * 15 degrees in F_P *)
I4 == Inv(4)
Cos0 == <<1, ((Rt2 + ((Rt2 * Rt3) % P)) * I4) % P, (Rt3 * Inv(2)) % P, (Rt2 * Inv(2)) % P, Inv(2), ((((Rt2 * Rt3) % P) + P - Rt2) * I4) % P, 0>>
CosT == [q \in 0..23 |-> IF q <= 6 THEN Cos0[q + 1] ELSE IF q <= 12 THEN Mod(-Cos0[13 - q]) ELSE IF q <= 18 THEN Mod(-Cos0[q - 11]) ELSE Cos0[25 - q]]
Ang(m, j) == IF m >= 0 THEN CosT[(m * j) % 24] ELSE CosT[(-m * j + 18) % 24]
(* radial polynomials by recurrence in F_P: small orders *)
RECURSIVE Rad(_, _, _)
Rad(l, n, x) == IF l > n THEN 0 ELSE IF n = 0 THEN 1 ELSE IF n = l THEN Pow(x, n)
                ELSE Mod(x * Mod(Rad(Abs(l - 1), n - 1, x) + Rad(l + 1, n - 1, x)) - Rad(l, n - 2, x))
(* radii are given in fractions of the unit: eighths, or (small apertures: 6) 64ths *)
Den(lay) == IF lay \in {6, 7} THEN 64 ELSE 8

(* point layouts: eighths of the radius, multiples of 15 degrees; "grid" pairs every radius with every angle, radius by radius *)
Radii(lay) == CASE lay = 1 -> <<1, 3, 4, 6, 7, 8, 2, 5, 8, 7, 0, 6>> [] lay = 2 -> <<2, 5, 8>> [] lay = 3 -> <<1, 3, 4, 6, 7, 8>> [] lay = 4 -> <<8, 3>>
                [] lay = 5 -> <<4, 8, 6, 2>>
                [] lay = 6 -> <<1, 6, 11, 16, 3, 8, 14>> [] lay = 7 -> <<48, 52, 56, 58, 61, 64>> [] lay = 8 -> <<0, 1, 3, 4, 6, 7, 8, 5>> [] lay = 9 -> <<6>>
Angles(lay) == CASE lay = 1 -> <<1, 4, 7, 10, 13, 17, 19, 22, 3, 9, 0, 14>> [] lay = 2 -> <<0, 2, 5, 9, 13, 16, 20, 23>> [] lay = 3 -> <<1, 5, 11, 17>>
                [] lay = 4 -> <<0, 3, 7, 11, 14, 18, 21>> [] lay = 5 -> <<3, 10, 21, 14>>
                [] lay = 6 -> <<0, 2, 5, 7, 9, 13, 16, 20, 23>> [] lay = 7 -> <<0, 1, 2, 4, 5, 7, 8, 10, 11>> [] lay = 8 -> <<5>> [] lay = 9 -> <<0, 2, 5, 7, 9, 13, 16, 20>>
Paired(lay) == Len(Radii(lay)) = Len(Angles(lay))
NPoints(lay) == IF Paired(lay) THEN Len(Radii(lay)) ELSE Len(Radii(lay)) * Len(Angles(lay))
PointR(lay, k) == IF Paired(lay) THEN Radii(lay)[k] ELSE Radii(lay)[1 + ((k - 1) \div Len(Angles(lay)))]
PointT(lay, k) == IF Paired(lay) THEN Angles(lay)[k] ELSE Angles(lay)[1 + ((k - 1) % Len(Angles(lay)))]
Column(id, lay) == LET o == OSAInverse(id) IN [k \in 1..NPoints(lay) |-> (Rad(Abs(o[1]), o[2], (PointR(lay, k) * Inv(Den(lay))) % P) * Ang(o[1], PointT(lay, k))) % P]

VARIABLES cols,                 \* the columns of the candidates on the layout (constant in a behaviour; a variable, for TLC computes it once)
          seq, lay, basis,      \* requested polynomials; layout; reduced columns with their pivots: sequence of <<pivot row, column>>
          full                  \* the columns are independent
vars == <<cols, seq, lay, basis, full>>
View == <<seq, lay>>
Init == seq = <<>> /\ lay \in 1..9 /\ cols = TLCEval([id \in Ids |-> TLCEval(Column(id, lay))]) /\ basis = <<>> /\ full = TRUE
(* reduce a column by the basis, whose pivots are scaled to one *)
Step(c, e) == TLCEval(LET f == c[e[1]] IN [k \in DOMAIN c |-> Mod(c[k] - f * e[2][k])])
Reduce(c, b) == FoldLeft(Step, c, b)
Next == /\ Len(seq) < MaxLen /\ \E id \in Ids :
            /\ seq' = Append(seq, id)
            /\ \E col \in {Reduce(cols[id], basis)} : LET nz == {k \in DOMAIN col : col[k] # 0} IN
               IF nz = {} THEN full' = FALSE /\ basis' = basis
               ELSE /\ full' = full
                    /\ \E pv \in {CHOOSE k \in nz : \A q \in nz : k <= q} : \E iv \in {Inv(col[pv])} :
                        basis' = Append(basis, <<pv, TLCEval([k \in DOMAIN col |-> (col[k] * iv) % P])>>)
        /\ UNCHANGED <<cols, lay>>
Repeats == \E i, j \in 1..Len(seq) : i # j /\ seq[i] = seq[j]
(* a repeated polynomial always makes the columns dependent; rejected explicitly *)
RepeatDependent == Repeats => ~full
FieldOK == (Rt2 * Rt2) % P = 2 /\ (Rt3 * Rt3) % P = 3
GridOrder == ~Paired(lay) => \A i \in 1..Len(Radii(lay)), j \in 1..Len(Angles(lay)) :
                LET k == (i - 1) * Len(Angles(lay)) + j IN PointR(lay, k) = Radii(lay)[i] /\ PointT(lay, k) = Angles(lay)[j]
Emit == PrintT(ToJson([seq |-> seq, lay |-> lay, paired |-> Paired(lay), den |-> Den(lay), r |-> Radii(lay), t |-> Angles(lay),
                       out |-> IF Len(seq) = 0 \/ Repeats THEN "ValueError" ELSE IF full THEN "unique" ELSE "dependent"]))
=================================================================================
