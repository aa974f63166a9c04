------------------------------- MODULE PSFThreads -------------------------------
(* Calculations of two PSF objects in two threads.  A thread reads the parameters of its object, fills the kernel pixel by pixel and stores it.        *)
(* Broken designs: the parameters or the kernel under construction are kept at one place for all objects.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Pixels, Switches, SharedParams, SharedBuffer
Threads == {1, 2}
VARIABLES pc, params, buffer, stored, sched
vars == <<pc, params, buffer, stored, sched>>
Place(t, shared) == IF shared THEN 1 ELSE t
Init == /\ pc = [t \in Threads |-> 0] /\ params = [t \in Threads |-> 0] /\ buffer = [t \in Threads |-> <<>>]
        /\ stored = [t \in Threads |-> <<>>] /\ sched = <<>>
(* pc: 0 - start, 1..Pixels - next pixel, Pixels + 1 - store, Pixels + 2 - done *)
Start(t) == /\ pc[t] = 0 /\ params' = [params EXCEPT ![Place(t, SharedParams)] = t]
            /\ buffer' = [buffer EXCEPT ![Place(t, SharedBuffer)] = [i \in 1..Pixels |-> 0]] /\ stored' = stored
Pixel(t) == /\ pc[t] \in 1..Pixels /\ params' = params /\ stored' = stored
            /\ buffer' = [buffer EXCEPT ![Place(t, SharedBuffer)][pc[t]] = params[Place(t, SharedParams)]]
Store(t) == /\ pc[t] = Pixels + 1 /\ stored' = [stored EXCEPT ![t] = buffer[Place(t, SharedBuffer)]] /\ UNCHANGED <<params, buffer>>
NSwitch(s) == Cardinality({i \in 1..(Len(s) - 1) : s[i] # s[i + 1]})
Next == \E t \in Threads : /\ Start(t) \/ Pixel(t) \/ Store(t)
                           /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ sched' = Append(sched, t) /\ NSwitch(sched') <= Switches
Spec == Init /\ [][Next]_vars
Done == \A t \in Threads : pc[t] = Pixels + 2
Right == \A t \in Threads : pc[t] = Pixels + 2 => stored[t] = [i \in 1..Pixels |-> t]
Emit == Done => PrintT(ToJson([s |-> sched]))
=================================================================================
