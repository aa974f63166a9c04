--------------------------------- MODULE PSFOwn ---------------------------------
(* Ownership of what the caller hands over to PSF objects: containers with polynomials and with coefficients.  The caller may reuse and          *)
(* overwrite its containers at any time; an object keeps the contents that were accepted.  Contents are version numbers.                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Objects, PolBufs, CoefBufs, Depth
VARIABLES pols, coefs,     \* versions in the caller's containers
          obj,             \* object -> [made, pols, coefs, ampl]: versions accepted (0: nothing yet)
          hist       \* <<action, object, container, objects afterwards>>
vars == <<pols, coefs, obj, hist>>
None == [made |-> FALSE, pols |-> 0, coefs |-> 0, ampl |-> 0, pb |-> 0]
Init == /\ pols = [b \in PolBufs |-> 1] /\ coefs = [b \in CoefBufs |-> 1] /\ obj = [o \in Objects |-> None] /\ hist = <<>>
More == Len(hist) < Depth
New(o, b) == /\ More /\ ~obj[o].made
             /\ obj' = [obj EXCEPT ![o] = [made |-> TRUE, pols |-> pols[b], coefs |-> 0, ampl |-> 0, pb |-> b]]
             /\ hist' = Append(hist, <<"new", o, b, obj'>>) /\ UNCHANGED <<pols, coefs>>
Set(o, b) == /\ More /\ obj[o].made
             /\ obj' = [obj EXCEPT ![o].coefs = coefs[b], ![o].ampl = coefs[b]]
             /\ hist' = Append(hist, <<"set", o, b, obj'>>) /\ UNCHANGED <<pols, coefs>>
OverPols(b) == /\ More /\ pols[b] < 3 /\ hist # <<>>
               /\ pols' = [pols EXCEPT ![b] = @ + 1] /\ hist' = Append(hist, <<"pols", 0, b, obj>>) /\ UNCHANGED <<coefs, obj>>
OverCoefs(b) == /\ More /\ coefs[b] < 3 /\ hist # <<>>
                /\ coefs' = [coefs EXCEPT ![b] = @ + 1] /\ hist' = Append(hist, <<"coefs", 0, b, obj>>) /\ UNCHANGED <<pols, obj>>
Next == \/ \E o \in Objects : (\E b \in PolBufs : New(o, b)) \/ (\E b \in CoefBufs : Set(o, b))
        \/ (\E b \in PolBufs : OverPols(b)) \/ (\E b \in CoefBufs : OverCoefs(b))
(* amplitudes always belong to the coefficients; only calls on an object change this object *)
Consistent == \A o \in Objects : obj[o].ampl = obj[o].coefs
Owned == [][\A o \in Objects : obj'[o] # obj[o] => (hist'[Len(hist')][1] \in {"new", "set"} /\ hist'[Len(hist')][2] = o)]_vars
Emit == Len(hist) = Depth => PrintT(ToJson([h |-> hist]))
Spec == Init /\ [][Next]_vars
=================================================================================
