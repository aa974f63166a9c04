-------------------------------- MODULE PSFLife --------------------------------
(* Life cycle of the kernel stored in a PSF object.  The configuration is symbolic: phys in {none, p1, p2}; nodes in {n1, n2}; size is one of     *)
(* "unset", "est" (estimated for the current phys), a number, or "crop" (left by a crop).  The kernel is described by what produced it.            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Sizes               \* sizes given explicitly
Physes == {"p1", "p2"}
NodeSets == {"n1", "n2"}
VARIABLES phys, nodes, size,
          kernel,             \* <<>>: the initial single point; otherwise <<phys, nodes, size, normalised, cropped>>
          last
View == <<phys, nodes, size, kernel>>
vars == <<phys, nodes, size, kernel, last>>
Init == phys = "none" /\ nodes = "n1" /\ size = "unset" /\ kernel = <<>> /\ last = <<"new">>
SetPhys(p) == /\ phys' = p /\ size' = "est" /\ UNCHANGED <<nodes, kernel>> /\ last' = <<"phys", p>>
BadPhys == UNCHANGED View /\ last' = <<"badphys">>
SetCalc(s, q) == /\ size' = s /\ nodes' = q /\ UNCHANGED <<phys, kernel>> /\ last' = <<"calc", s, q>>
BadCalc == UNCHANGED View /\ last' = <<"badcalc">>
(* size used by a calculation: without any size a fixed default one *)
Used(eng) == IF size # "unset" THEN size ELSE IF eng = "parallel" THEN "est" ELSE "19"
Calculate(eng, nrm) == /\ (phys = "none" => eng # "parallel")
                       /\ size' = Used(eng)
                       /\ kernel' = <<phys, nodes, Used(eng), nrm, FALSE>>
                       /\ UNCHANGED <<phys, nodes>>
                       /\ last' = <<"calculate", eng, nrm>>
(* cropping is considered for the kernel of the current size only *)
Crop == /\ kernel # <<>> /\ size = kernel[3] /\ ~kernel[5] /\ size \in {"19"} \cup Sizes
        /\ kernel' = [kernel EXCEPT ![5] = TRUE, ![3] = "crop"] /\ size' = "crop" /\ UNCHANGED <<phys, nodes>> /\ last' = <<"crop">>
BadCrop == /\ kernel # <<>> /\ size = kernel[3] /\ size \in {"19"} \cup (Sizes \ {"3"}) /\ UNCHANGED View /\ last' = <<"badcrop">>
Observe(w) == UNCHANGED View /\ last' = <<"observe", w>>
Next == \/ \E p \in Physes : SetPhys(p)
        \/ BadPhys \/ BadCalc \/ BadCrop \/ Crop
        \/ \E s \in Sizes, q \in NodeSets : SetCalc(s, q)
        \/ /\ size # "crop"
           /\ \E e \in {"plain", "compiled", "default", "parallel"}, b \in BOOLEAN : Calculate(e, b)
        \/ \E w \in {"convolve", "plot", "save"} : kernel # <<>> /\ Observe(w)
(* the stored kernel changes only by a calculation or a crop; the configuration never changes by a calculation, except that a size gets fixed *)
KernelStable == [][kernel' # kernel => last'[1] \in {"calculate", "crop"}]_vars
ConfigStable == [][(phys' # phys \/ nodes' # nodes) => last'[1] \in {"phys", "calc"}]_vars
SizeOrigin == [][size' # size => last'[1] \in {"phys", "calc", "crop"} \/ size = "unset"]_vars
Fresh == kernel # <<>> => kernel[3] # "unset"
LastCalculated == (last[1] = "calculate") => kernel = <<phys, nodes, size, last[3], FALSE>>
Edge == PrintT(ToJson([f |-> View, a |-> last', t |-> View']))
=================================================================================
