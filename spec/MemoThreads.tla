------------------------------- MODULE MemoThreads -------------------------------
(* Evaluations in two threads that share the memory of coefficients.  A thread looks for the row of its polynomial; without success it computes the    *)
(* row term by term and stores it; then it sums the terms.  The steps of the threads are interleaved arbitrarily (bounded number of switches).         *)
(* Two broken designs are described as well: a row that becomes visible in the memory before it is complete (Early), and one place for the row under   *)
(* construction for all threads (Scratch).                                                                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Polys, Terms, Switches, Early, Scratch
Threads == {1, 2}
VARIABLES poly,       \* what each thread evaluates
          pc, row, memo, scratch, result, sched
vars == <<poly, pc, row, memo, scratch, result, sched>>
(* the row of a polynomial is <<p, p, ..., p>> (Terms + p terms): rows of different polynomials differ *)
True(p) == [i \in 1..(Terms + p) |-> p]
Init == /\ poly \in [Threads -> Polys] /\ pc = [t \in Threads |-> "look"] /\ row = [t \in Threads |-> <<>>]
        /\ memo = [p \in Polys |-> <<>>] /\ scratch = <<>> /\ result = [t \in Threads |-> <<>>] /\ sched = <<>>
Known(p) == memo[p] # <<>>
Built(t) == IF Scratch THEN scratch ELSE row[t]
Run(t) == sched' = Append(sched, t)
Look(t) == /\ pc[t] = "look"
           /\ IF Known(poly[t]) THEN /\ pc' = [pc EXCEPT ![t] = "sum"] /\ row' = [row EXCEPT ![t] = memo[poly[t]]] /\ UNCHANGED <<memo, scratch>>
              ELSE /\ pc' = [pc EXCEPT ![t] = "grow"] /\ row' = [row EXCEPT ![t] = <<>>]
                   /\ scratch' = (IF Scratch THEN <<>> ELSE scratch) /\ memo' = memo
           /\ UNCHANGED <<poly, result>>
Grow(t) == /\ pc[t] = "grow"
           /\ LET r == Append(Built(t), poly[t]) IN
              /\ IF Scratch THEN scratch' = r /\ row' = row ELSE row' = [row EXCEPT ![t] = r] /\ scratch' = scratch
              /\ memo' = IF Early THEN [memo EXCEPT ![poly[t]] = r] ELSE memo
              /\ pc' = [pc EXCEPT ![t] = IF Len(r) >= Terms + poly[t] THEN "store" ELSE "grow"]
           /\ UNCHANGED <<poly, result>>
Store(t) == /\ pc[t] = "store" /\ memo' = [memo EXCEPT ![poly[t]] = Built(t)] /\ row' = [row EXCEPT ![t] = Built(t)]
            /\ pc' = [pc EXCEPT ![t] = "sum"] /\ UNCHANGED <<poly, scratch, result>>
Sum(t) == /\ pc[t] = "sum" /\ result' = [result EXCEPT ![t] = row[t]] /\ pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<poly, row, memo, scratch>>
Step(t) == (Look(t) \/ Grow(t) \/ Store(t) \/ Sum(t)) /\ Run(t)
NSwitch(s) == Cardinality({i \in 1..(Len(s) - 1) : s[i] # s[i + 1]})
Next == \E t \in Threads : Step(t) /\ NSwitch(sched') <= Switches
Spec == Init /\ [][Next]_vars
Done == \A t \in Threads : pc[t] = "done"
MemoSound == \A p \in Polys : memo[p] # <<>> => memo[p] = True(p)
Right == \A t \in Threads : pc[t] = "done" => result[t] = True(poly[t])
Emit == Done => PrintT(ToJson([p |-> poly, s |-> sched]))
=================================================================================
