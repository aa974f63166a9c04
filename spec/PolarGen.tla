-------------------------------- MODULE PolarGen --------------------------------
(* Generation of a vector of coordinates 0, s, 2s ... clipped to the end T (in ticks; the interval is [0, T]); the machine walks the vector.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS T,                 \* ticks in the whole range
          Steps              \* steps in ticks that are tried (including impossible ones)
VARIABLES s, vec, done
vars == <<s, vec, done>>
Legal == s > 0 /\ 2 * s <= T                        \* not more than a half of the range
Init == s \in Steps /\ vec = <<0>> /\ done = ~Legal
Next == /\ ~done /\ s' = s
        /\ LET x == vec[Len(vec)] + s IN
           IF x < T THEN vec' = Append(vec, x) /\ done' = FALSE
                    ELSE vec' = Append(vec, T) /\ done' = TRUE
InRange == \A i \in 1..Len(vec) : vec[i] >= 0 /\ vec[i] <= T
Increasing == \A i \in 1..(Len(vec) - 1) : vec[i] < vec[i + 1] /\ vec[i + 1] - vec[i] <= s
Covers == (done /\ Legal) => (vec[1] = 0 /\ vec[Len(vec)] = T /\ Len(vec) = 1 + (T + s - 1) \div s)
Terminates == <>done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Emit == done => PrintT(ToJson([s |-> s, ok |-> Legal, vec |-> vec]))
=================================================================================
