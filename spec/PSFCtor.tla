-------------------------------- MODULE PSFCtor --------------------------------
(* Which arguments construct a PSF object.  The machine appends members to a container; a bare argument is a container of kind "bare".            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Members, MaxLen       \* names of members: polynomials "p1", "p1b" (the same orders), "p2", "p0" ... and strangers
VARIABLES box, seq
IsPol(x) == x \in {"p0", "p1", "p1b", "p2", "p3"}
Same(x, y) == x = y \/ {x, y} = {"p1", "p1b"}
Init == box \in {"bare", "list", "tuple", "array"} /\ seq = <<>>
Next == /\ Len(seq) < (IF box = "bare" THEN 1 ELSE MaxLen) /\ \E x \in Members : seq' = Append(seq, x)
        /\ box' = box
AllPols == \A i \in DOMAIN seq : IsPol(seq[i])
Unique == \A i, j \in DOMAIN seq : i # j => ~Same(seq[i], seq[j])
Accepted == Len(seq) > 0 /\ AllPols /\ Unique
Single == Accepted /\ Len(seq) = 1
(* adding a member never turns a rejected non-empty sequence to an accepted one *)
Monotone == [][(Len(seq) > 0 /\ ~Accepted) => ~Accepted']_<<box, seq>>
Emit == (box # "bare" \/ Len(seq) = 1) =>
          PrintT(ToJson([box |-> box, seq |-> seq, out |-> IF Accepted THEN "ok" ELSE "ValueError", single |-> Single]))
=================================================================================
