--------------------------------- MODULE BigNat ---------------------------------
(* Natural numbers of any size as little-endian sequences of limbs (TLC integers have 32 bits). <<>> is zero; no trailing zero limbs.     *)
EXTENDS Integers, Sequences
Base == 10000

RECURSIVE BTrim(_)
BTrim(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] = 0 THEN BTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE BFrom(_)
BFrom(x) == IF x = 0 THEN <<>> ELSE <<x % Base>> \o BFrom(x \div Base)
Limb(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
RECURSIVE BAddC(_, _, _, _)
BAddC(a, b, i, c) == IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                     ELSE LET t == Limb(a, i) + Limb(b, i) + c IN <<t % Base>> \o BAddC(a, b, i + 1, t \div Base)
BAdd(a, b) == BAddC(a, b, 1, 0)
RECURSIVE BMulC(_, _, _, _)
BMulC(a, k, i, c) == IF i > Len(a) THEN BFrom(c) ELSE LET t == a[i] * k + c IN <<t % Base>> \o BMulC(a, k, i + 1, t \div Base)
BMul(a, k) == BTrim(BMulC(a, k, 1, 0))          \* times a small natural k < 200000
RECURSIVE BModIn(_, _, _, _)
BModIn(a, p, i, acc) == IF i = 0 THEN acc ELSE BModIn(a, p, i - 1, (acc * Base + a[i]) % p)
BMod(a, p) == BModIn(a, p, Len(a), 0)           \* p < 100000
=================================================================================
