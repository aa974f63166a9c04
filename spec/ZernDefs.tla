------------------------------- MODULE ZernDefs -------------------------------
(* Shared definitions: orders of the Zernike polynomials and the closed forms of the three published index schemes.                    *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

MaxOrder == 54                                   \* highest radial order that the library supports

(* (m, n) denotes a Zernike polynomial *)
ValidOrders(m, n) == n >= 0 /\ Abs(m) <= n /\ (n - Abs(m)) % 2 = 0

(* Closed forms (Thibos et al. 2002; Noll 1976; Univ. of Arizona / Fringe) *)
OSAIndex(m, n) == (n * (n + 2) + m) \div 2
NollIndex(m, n) == LET odd == IF m > 0 THEN (IF n % 4 \in {0, 1} THEN 0 ELSE 1)
                              ELSE IF m < 0 THEN (IF n % 4 \in {2, 3} THEN 0 ELSE 1) ELSE 1
                   IN (n * (n + 1)) \div 2 + Abs(m) + odd
FringeIndex(m, n) == LET s == (n + Abs(m)) \div 2 IN (1 + s) * (1 + s) - 2 * Abs(m) + (1 - Sgn(m)) \div 2

(* integer square root by bisection: largest s with s*s <= x *)
RECURSIVE SqrtIn(_, _, _)
SqrtIn(x, lo, hi) == IF lo = hi THEN lo ELSE LET mid == (lo + hi + 1) \div 2 IN IF mid * mid <= x THEN SqrtIn(x, mid, hi) ELSE SqrtIn(x, lo, mid - 1)
ISqrt(x) == SqrtIn(x, 0, 46340)

(* Closed inverses, independent of the forward formulas *)
OSAInverse(j) == LET n == (ISqrt(8 * j + 1) - 1) \div 2
                     m == 2 * j - n * (n + 2)
                 IN <<m, n>>
NollInverse(j) == LET n == (ISqrt(8 * (j - 1) + 1) - 1) \div 2              \* n(n+1)/2 <= j-1 < (n+1)(n+2)/2
                      k == (j - 1) - (n * (n + 1)) \div 2                     \* position in the row: 0 .. n
                      a == IF n % 2 = 0 THEN 2 * ((k + 1) \div 2) ELSE 2 * (k \div 2) + 1
                  IN <<IF a = 0 THEN 0 ELSE IF j % 2 = 0 THEN a ELSE -a, n>>
FringeInverse(j) == LET s == ISqrt(j - 1)                                     \* shell n + |m| = 2s holds indices s*s+1 .. (s+1)*(s+1)
                        k == (j - 1) - s * s                                  \* 0 .. 2s
                        a == s - (k \div 2)
                    IN <<IF a = 0 THEN 0 ELSE IF k % 2 = 0 THEN a ELSE -a, 2 * s - a>>
===============================================================================
