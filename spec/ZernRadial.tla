------------------------------- MODULE ZernRadial -------------------------------
(* Exact radial polynomials.  R(l, n; r) = SUM_k (-1)^k c[n][l][k] r^(n-2k),  l = |m|,  0 <= k <= (n-l)/2.                                  *)
(* The machine builds the rows n = 0, 1, 2 ... from the two previous rows by the three-term recurrence                                      *)
(*     R(l, n) = r (R(|l-1|, n-1) + R(l+1, n-1)) - R(l, n-2)                                                                                *)
(* which in magnitudes is c[n][l][k] = c[n-1][|l-1|][k] + c[n-1][l+1][k] + c[n-2][l][k-1]  (BigNat numbers).                                 *)
(* Checked on every row: the closed form with factorials (as the ratio of neighbours), R(1) = 1, R'(1) = (n(n+2)-l^2)/2,                    *)
(* the value at the origin, and orthogonality of every pair of rows (modulo a prime).                                                       *)
EXTENDS ZernDefs, BigNat, TLC, Json

CONSTANTS MaxN,          \* last row
          OrthoN         \* orthogonality is checked for rows up to OrthoN
VARIABLES n,             \* current row
          cur, prev,     \* rows n and n-1: function l -> sequence of magnitudes (k = 0 ..)
          res            \* residues modulo Prime of all rows up to OrthoN: function row -> l -> sequence

Lset(nn) == {l \in 0..nn : (nn - l) % 2 = 0}
NCoef(nn, l) == (nn - l) \div 2 + 1
Prime == 30011
Coef(row, l, k, nn) == IF nn < 0 \/ l > nn \/ k < 0 \/ k > (nn - l) \div 2 THEN <<>> ELSE row[l][k + 1]

NextRow == [l \in Lset(n + 1) |-> [kk \in 1..NCoef(n + 1, l) |->
              LET k == kk - 1 IN BAdd(BAdd(Coef(cur, Abs(l - 1), k, n), IF l = 0 THEN <<>> ELSE Coef(cur, l + 1, k, n)),
                                      BAdd(IF l = 0 THEN Coef(cur, 1, k, n) ELSE <<>>, Coef(prev, l, k - 1, n - 1)))]]
Residues(row, nn) == [l \in Lset(nn) |-> [kk \in 1..NCoef(nn, l) |-> LET v == BMod(row[l][kk], Prime)
                                                                     IN IF kk % 2 = 1 THEN v ELSE (Prime - v) % Prime]]
Init == /\ n = 0 /\ cur = [l \in {0} |-> <<BFrom(1)>>] /\ prev = [l \in {} |-> <<>>]
        /\ res = [i \in {0} |-> [l \in {0} |-> <<1>>]]
Next == /\ n < MaxN /\ n' = n + 1 /\ cur' = NextRow /\ prev' = cur
        /\ res' = IF n + 1 <= OrthoN THEN [i \in 0..(n + 1) |-> IF i <= n THEN res[i] ELSE Residues(NextRow, n + 1)] ELSE res

(* ---- independent characterisations ------------------------------------------------------------------------------------------------------ *)
(* closed form (n-k)! / (k! ((n+l)/2-k)! ((n-l)/2-k)!): ratio of neighbours *)
ClosedForm == \A l \in Lset(n) : \A k \in 0..(NCoef(n, l) - 2) :
      BMul(BMul(cur[l][k + 2], k + 1), n - k) = BMul(BMul(cur[l][k + 1], (n + l) \div 2 - k), (n - l) \div 2 - k)
RECURSIVE BSum(_, _, _)
BSum(s, i, step) == IF i > Len(s) THEN <<>> ELSE BAdd(s[i], BSum(s, i + step, step))
(* R(1) = 1 : positive terms = negative terms + 1 *)
UnitAtEdge == \A l \in Lset(n) : BSum(cur[l], 1, 2) = BAdd(BSum(cur[l], 2, 2), BFrom(1))
(* R'(1) = (n(n+2) - l^2)/2 *)
RECURSIVE DSum(_, _, _)
DSum(s, i, step) == IF i > Len(s) THEN <<>> ELSE BAdd(BMul(s[i], n - 2 * (i - 1)), DSum(s, i + step, step))
SlopeAtEdge == \A l \in Lset(n) : DSum(cur[l], 1, 2) = BAdd(DSum(cur[l], 2, 2), BFrom((n * (n + 2) - l * l) \div 2))
(* R(0) = 0 for l > 0 is structural; for l = 0 it is (-1)^(n/2) *)
UnitAtOrigin == n % 2 = 0 => cur[0][NCoef(n, 0)] = BFrom(1)

(* orthogonality  INT_0^1 R(l,n) R(l,n') r dr = [n = n'] / (2(n+1)),  in the field of residues *)
RECURSIVE PowMod(_, _)
PowMod(b, e) == IF e = 0 THEN 1 ELSE LET h == PowMod(b, e \div 2) h2 == (h * h) % Prime IN IF e % 2 = 0 THEN h2 ELSE (h2 * b) % Prime
InvTab == [d \in 1..(2 * OrthoN + 2) |-> PowMod(d, Prime - 2)]
RECURSIVE SumUp(_, _, _, _, _, _)
SumUp(a, b, i, j, deg, acc) ==
   IF i > Len(a) THEN acc
   ELSE IF j > Len(b) THEN SumUp(a, b, i + 1, 1, deg, acc)
   ELSE SumUp(a, b, i, j + 1, deg, (acc + ((a[i] * b[j]) % Prime) * InvTab[deg - 2 * (i - 1) - 2 * (j - 1)]) % Prime)
Orthogonal == n <= OrthoN => \A l \in Lset(n) : \A q \in {x \in 0..n : x >= l /\ (x - l) % 2 = 0} :
      SumUp(res[n][l], res[q][l], 1, 1, n + q + 2, 0) = IF q = n THEN InvTab[2 * (n + 1)] ELSE 0

Emit == \A l \in Lset(n) : PrintT(ToJson([n |-> n, l |-> l, c |-> cur[l],
           normsq |-> n + 1,                                          \* squared norm for m = 0, twice that for m # 0
           edge |-> 1, slope |-> (n * (n + 2) - l * l) \div 2]))
=================================================================================
