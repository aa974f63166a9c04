------------------------------- MODULE ZernIndex -------------------------------
(* The three index schemes as *walks*: each scheme enumerates the polynomials by a successor rule that is stated directly from its       *)
(* published ordering (not from the closed formula), starting from the piston.  The walk position is the index.                         *)
(*  - OSA/ANSI: rows of increasing n, in a row m = -n, -n+2 .. n; starts with 0.                                                         *)
(*  - Noll: rows of increasing n, in a row increasing |m|; of the pair +-m the even index belongs to the cosine (m > 0); starts with 1.   *)
(*  - Fringe: shells of increasing n+|m|, in a shell decreasing |m|, +m before -m; starts with 1.                                        *)
EXTENDS ZernDefs, TLC, Json

CONSTANTS MaxN,      \* walk rows 0 .. MaxN in the OSA and Noll schemes
          MaxShell   \* walk shells (n+|m|)/2 = 0 .. MaxShell in the Fringe scheme

VARIABLES scheme, idx, n, m,
          paired       \* TRUE: the polynomial with the other sign of m has been visited already (Noll)

vars == <<scheme, idx, n, m, paired>>

Init == /\ scheme \in {"osa", "noll", "fringe"}
        /\ n = 0 /\ m = 0 /\ paired = TRUE
        /\ idx = IF scheme = "osa" THEN 0 ELSE 1

OSAStep == /\ scheme = "osa" /\ paired' = TRUE
           /\ IF m = n THEN n < MaxN /\ n' = n + 1 /\ m' = -(n + 1)
                       ELSE n' = n /\ m' = m + 2

Cosine4Even(a, j) == IF a = 0 THEN 0 ELSE IF j % 2 = 0 THEN a ELSE -a
NollStep == /\ scheme = "noll"
            /\ \/ ~paired /\ n' = n /\ m' = -m /\ paired' = TRUE
               \/ paired /\ Abs(m) < n /\ n' = n /\ m' = Cosine4Even(Abs(m) + 2, idx + 1) /\ paired' = FALSE
               \/ paired /\ Abs(m) = n /\ n < MaxN /\ n' = n + 1
                         /\ LET a == (n + 1) % 2 IN m' = Cosine4Even(a, idx + 1) /\ paired' = (a = 0)

FringeStep == /\ scheme = "fringe" /\ paired' = TRUE
              /\ LET s == (n + Abs(m)) \div 2 IN
                 IF m > 0 THEN n' = n /\ m' = -m
                 ELSE IF m < 0 THEN n' = n + 1 /\ m' = Abs(m) - 1
                 ELSE s < MaxShell /\ n' = s + 1 /\ m' = s + 1

Next == /\ idx' = idx + 1 /\ scheme' = scheme
        /\ (OSAStep \/ NollStep \/ FringeStep)

(* ---- what has to hold on every state of the walks -------------------------------------------------------------------------------- *)
OrdersValid == ValidOrders(m, n)
FormulaIsRank == CASE scheme = "osa" -> idx = OSAIndex(m, n)
                   [] scheme = "noll" -> idx = NollIndex(m, n)
                   [] scheme = "fringe" -> idx = FringeIndex(m, n)
InverseIsWalk == CASE scheme = "osa" -> OSAInverse(idx) = <<m, n>>            \* a function of idx: no polynomial is visited twice
                   [] scheme = "noll" -> NollInverse(idx) = <<m, n>>
                   [] scheme = "fringe" -> FringeInverse(idx) = <<m, n>>
(* at the end of a row (shell) every polynomial of the rows (shells) so far has been visited: counting *)
Complete == /\ (scheme = "osa" /\ m = n) => idx + 1 = ((n + 1) * (n + 2)) \div 2
            /\ (scheme = "noll" /\ Abs(m) = n /\ paired) => idx = ((n + 1) * (n + 2)) \div 2
            /\ (scheme = "fringe" /\ m = 0) => idx = (1 + n \div 2) * (1 + n \div 2)
(* Noll's rule *)
NollParity == scheme = "noll" => (m > 0 => idx % 2 = 0) /\ (m < 0 => idx % 2 = 1)

Emit == PrintT(ToJson([s |-> scheme, i |-> idx, m |-> m, n |-> n]))
EmitInv == Emit
================================================================================
