-------------------------------- MODULE PSFWorld --------------------------------
(* Several PSF objects, files with saved kernels and pools of workers in one process.  The content of an object is symbolic: kind (which           *)
(* polynomials), phys (accepted physical parameters), nodes, size and what produced its kernel.  Only calls on an object change this object;       *)
(* a calculation that fails leaves the stored kernel as it was and the object usable; a file is a snapshot of an object, loading it makes the      *)
(* object a copy of this snapshot (its own pool of workers stays as it is).                                                                       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Objects, Slots, Kinds, Sizes, Small, Depth, Engines, Acts
Physes == {"p1", "p2"}
NodeSets == {"n1", "n2"}
VARIABLES obj, files, compiled, hist
vars == <<obj, files, compiled, hist>>
NoKernel == [kind |-> -1, phys |-> "none", nodes |-> "n1", size |-> "unset", norm |-> FALSE, crop |-> FALSE, eng |-> "none"]
NoFile == [kind |-> -1, phys |-> "none", nodes |-> "n1", size |-> "unset", kernel |-> NoKernel]
Fresh(k) == [kind |-> k, phys |-> "none", nodes |-> "n1", size |-> "unset", kernel |-> NoKernel, pool |-> FALSE]
Init == /\ obj \in [Objects -> {Fresh(k) : k \in Kinds}] /\ files = [s \in Slots |-> NoFile] /\ compiled = FALSE /\ hist = <<>>
More == Len(hist) < Depth
Log(a) == hist' = Append(hist, [a |-> a, o |-> obj'])
Change(o, rec, a) == obj' = [obj EXCEPT ![o] = rec] /\ UNCHANGED <<files, compiled>> /\ Log(a)
Same(a) == UNCHANGED <<obj, files, compiled>> /\ Log(a)
SetPhys(o, p) == More /\ Change(o, [obj[o] EXCEPT !.phys = p, !.size = "est"], <<"phys", o, p>>)
SetCalc(o, s, q) == More /\ Change(o, [obj[o] EXCEPT !.size = s, !.nodes = q], <<"calc", o, s, q>>)
Rejected(o, w) == More /\ Same(<<"rejected", o, w>>)
(* engines: "plain", "compiled", "default", "parallel"; big kernels aren't calculated by the parallel one (time), a size has to be known for it *)
Runs(o, e) == /\ (obj[o].kind = 2 => obj[o].phys # "none")
              /\ (e = "parallel" => obj[o].size \in Small)
Used(o) == IF obj[o].size = "unset" THEN "19" ELSE obj[o].size
Calculate(o, e, nrm) ==
    /\ More /\ Runs(o, e)
    /\ Change(o, [obj[o] EXCEPT !.size = Used(o),
                                !.kernel = [kind |-> obj[o].kind, phys |-> obj[o].phys, nodes |-> obj[o].nodes, size |-> Used(o), norm |-> nrm, crop |-> FALSE, eng |-> e]],
              <<"calculate", o, e, nrm>>)
(* the polynomial raises an error inside of the calculation *)
Fail(o, e) == /\ More /\ Runs(o, e) /\ obj[o].size # "unset" /\ e \in {"plain", "parallel"} /\ (e = "plain" => obj[o].kind # 0)
              /\ Change(o, [obj[o] EXCEPT !.pool = IF e = "parallel" THEN FALSE ELSE @], <<"fail", o, e>>)
CanCrop(o) == obj[o].kernel # NoKernel /\ obj[o].size = obj[o].kernel.size /\ ~obj[o].kernel.crop /\ obj[o].size \in {"19"} \cup Sizes
Crop(o) == /\ More /\ CanCrop(o)
           /\ Change(o, [obj[o] EXCEPT !.size = "crop", !.kernel.size = "crop", !.kernel.crop = TRUE], <<"crop", o>>)
Pool(o) == /\ More /\ ~obj[o].pool /\ obj[o].kind # 0 /\ Change(o, [obj[o] EXCEPT !.pool = TRUE], <<"pool", o>>)
Unpool(o) == /\ More /\ Change(o, [obj[o] EXCEPT !.pool = FALSE], <<"unpool", o>>)
Save(o, s) == /\ More /\ obj[o].kernel # NoKernel /\ obj[o].phys # "none"
              /\ files' = [files EXCEPT ![s] = [kind |-> obj[o].kind, phys |-> obj[o].phys, nodes |-> obj[o].nodes, size |-> obj[o].size, kernel |-> obj[o].kernel]]
              /\ UNCHANGED <<obj, compiled>> /\ Log(<<"save", o, s>>)
Load(o, s) == /\ More /\ files[s] # NoFile
              /\ Change(o, [kind |-> files[s].kind, phys |-> files[s].phys, nodes |-> files[s].nodes, size |-> files[s].size, kernel |-> files[s].kernel, pool |-> obj[o].pool],
                        <<"load", o, s>>)
Replace(o, k) == /\ More /\ ~obj[o].pool /\ k # obj[o].kind /\ Change(o, Fresh(k), <<"new", o, k>>)
(* another object becomes a copy: afterwards both live on their own.  Pools of workers cannot be shared and aren't copied. *)
Ways == {"copy", "deepcopy", "pickle"}
CopyTo(t, o, w) == More /\ t # o /\ ~obj[o].pool /\ ~obj[t].pool /\ Change(t, obj[o], <<"copy", t, o, w>>)
Compile == More /\ ~compiled /\ compiled' = TRUE /\ UNCHANGED <<obj, files>> /\ Log(<<"compile", 0>>)
Observe(o, w) == More /\ obj[o].kernel # NoKernel /\ Same(<<"observe", o, w>>)
(* Acts restricts the histories to some of the actions, so that long ones about a single matter (e.g. the pool of workers) are generated as well *)
On(a) == a \in Acts
Next == \/ On("compile") /\ Compile
        \/ \E o \in Objects :
           \/ On("phys") /\ \E p \in Physes : SetPhys(o, p)
           \/ On("calc") /\ \E s \in Sizes, q \in NodeSets : SetCalc(o, s, q)
           \/ On("rejected") /\ \E w \in {"phys", "calc", "crop", "load"} : Rejected(o, w)
           \/ On("calculate") /\ \E e \in Engines, b \in BOOLEAN : Calculate(o, e, b)
           \/ On("fail") /\ \E e \in Engines : Fail(o, e)
           \/ On("crop") /\ Crop(o)
           \/ On("pool") /\ Pool(o)
           \/ On("unpool") /\ Unpool(o)
           \/ On("file") /\ \E s \in Slots : Save(o, s) \/ Load(o, s)
           \/ On("new") /\ \E k \in Kinds : Replace(o, k)
           \/ On("copy") /\ \E t \in Objects, w \in Ways : CopyTo(t, o, w)
           \/ On("observe") /\ \E w \in {"convolve", "plot"} : Observe(o, w)
Spec == Init /\ [][Next]_vars
Last == hist'[Len(hist')].a
(* only calls on an object change this object, only saving changes a file *)
Isolated == [][\A o \in Objects : obj'[o] # obj[o] => Last[2] = o]_vars
FilesStable == [][files' # files => Last[1] = "save"]_vars
KernelStable == [][\A o \in Objects : obj'[o].kernel # obj[o].kernel => Last[1] \in {"calculate", "crop", "load", "new", "copy"}]_vars
FailKeeps == [][Last[1] \in {"fail", "rejected", "observe", "compile"} => \A o \in Objects : obj'[o].kernel = obj[o].kernel /\ obj'[o].phys = obj[o].phys /\ obj'[o].nodes = obj[o].nodes]_vars
CopyExact == [][Last[1] = "copy" => obj'[Last[2]] = obj[Last[3]]]_vars
LoadExact == [][Last[1] = "load" => LET o == Last[2] s == Last[3] IN obj'[o].kernel = files[s].kernel /\ obj'[o].phys = files[s].phys /\ obj'[o].size = files[s].size]_vars
KernelSized == \A o \in Objects : obj[o].kernel # NoKernel => obj[o].kernel.size # "unset"
CropAgrees == \A o \in Objects : obj[o].kernel.crop <=> (obj[o].kernel.size = "crop" /\ obj[o].kernel.crop)
Emit == Len(hist) = Depth => PrintT(ToJson([h |-> hist]))
=================================================================================
