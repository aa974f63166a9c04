-------------------------------- MODULE PSFSave --------------------------------
(* Saving and loading of calculated kernels.  An object holds one of the contents; contents "A" and "B" have the same polynomial and coefficient     *)
(* (hence the same file name), "C" consists of several polynomials.  disk: what every file of every location holds; told: the path that the object  *)
(* reported after its last save.  A save replaces an existing file only on request; a load brings the content of the file or leaves everything.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs, Locs,
          Contents          \* "D" differs from "A", and "E" from "C", by a small change of an amplitude only: these have names of their own
NameOf(c) == CASE c \in {"A", "B"} -> "one" [] c = "C" -> "many" [] c = "D" -> "one-close" [] c = "E" -> "many-close"
Files == {<<l, f>> : l \in Locs, f \in {NameOf(c) : c \in Contents}}
NoFile == <<"", "">>
VARIABLES obj, told, disk, warned, last
View == <<obj, told, disk>>
vars == <<obj, told, disk, warned, last>>
Init == obj = [o \in Objs |-> "fresh"] /\ told = [o \in Objs |-> NoFile] /\ disk = [f \in Files |-> "absent"] /\ warned = FALSE /\ last = <<"new">>
Make(o, c) == /\ obj' = [obj EXCEPT ![o] = c] /\ warned' = FALSE /\ UNCHANGED <<told, disk>> /\ last' = <<"make", o, c>>
Recalc(o) == obj[o] # "fresh" /\ warned' = FALSE /\ UNCHANGED <<obj, told, disk>> /\ last' = <<"recalc", o>>
Save(o, l, over) == /\ obj[o] # "fresh"
                    /\ LET f == <<l, NameOf(obj[o])>> IN
                       /\ disk' = IF disk[f] = "absent" \/ over THEN [disk EXCEPT ![f] = obj[o]] ELSE disk
                       /\ warned' = (disk[f] # "absent" /\ ~over)
                       /\ told' = [told EXCEPT ![o] = f]
                       /\ last' = <<"save", o, l, over>>
                    /\ UNCHANGED obj
(* explicit path of a file, or the stored path *)
ReadFrom(o, f) == /\ obj' = IF f # NoFile /\ disk[f] # "absent" THEN [obj EXCEPT ![o] = disk[f]] ELSE obj
                  /\ warned' = (f = NoFile \/ disk[f] = "absent")
                  /\ UNCHANGED <<told, disk>>
Read(o, f) == ReadFrom(o, f) /\ last' = <<"read", o, f[1], f[2]>>
ReadStored(o) == ReadFrom(o, told[o]) /\ last' = <<"readstored", o>>
(* loads that fail: by a warning or by an exception *)
Broken == {"missing", "folder", "incomplete", "badNA", "badpol", "nojson", "nocoef", "badcount"}
Warns(k) == k \in {"missing", "folder", "incomplete", "nocoef"}
ReadBroken(o, k) == warned' = Warns(k) /\ UNCHANGED <<obj, told, disk>> /\ last' = <<"broken", o, k>>
Delete(f) == disk[f] # "absent" /\ disk' = [disk EXCEPT ![f] = "absent"] /\ warned' = FALSE /\ UNCHANGED <<obj, told>> /\ last' = <<"delete", f[1], f[2]>>
Next == \/ \E o \in Objs : \/ \E c \in Contents : Make(o, c)
                           \/ \E l \in Locs, b \in BOOLEAN : Save(o, l, b)
                           \/ \E f \in Files : Read(o, f)
                           \/ ReadStored(o) \/ Recalc(o)
                           \/ \E k \in Broken : ReadBroken(o, k)
        \/ \E f \in Files : Delete(f)
(* a file changes only when it did not exist, on an explicit request, or when it is deleted from outside *)
NeverUnasked == [][\A f \in Files : (disk'[f] # disk[f] /\ disk[f] # "absent") =>
                      (\/ (last'[1] = "save" /\ last'[4])
                       \/ (last'[1] = "delete"))]_vars
ToldExists == [][last'[1] = "save" => (told'[last'[2]] # NoFile /\ disk'[told'[last'[2]]] # "absent")]_vars
SavedIsOwn == [][(last'[1] = "save" /\ last'[4]) => disk'[told'[last'[2]]] = obj[last'[2]]]_vars
LoadsOnly == [][(obj' # obj) => last'[1] \in {"make", "read", "readstored"}]_vars
FailedUnchanged == [][(warned' /\ last'[1] # "save") => obj' = obj /\ disk' = disk]_vars
NamesFit == \A f \in Files : disk[f] # "absent" => NameOf(disk[f]) = f[2]
Edge == PrintT(ToJson([f |-> <<obj, told, {<<f, disk[f]>> : f \in Files}>>, a |-> last',
                       t |-> <<obj', told', {<<f, disk'[f]>> : f \in Files}>>, w |-> warned']))
=================================================================================
