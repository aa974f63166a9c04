-------------------------------- MODULE ZernCtor --------------------------------
(* The constructor as a decision table: a specification is a set of keyword=value pairs; it is accepted iff it is exactly one index      *)
(* keyword, or exactly one radial plus exactly one azimuthal keyword, with plain integers that denote a polynomial of order <= MaxOrder. *)
(* The machine assembles keyword sets one by one (states), every reached set is one row of the table.                                    *)
EXTENDS ZernDefs, TLC, Json

RadialKeys == {"n", "radial_order"}
AzimuthKeys == {"m", "l", "azimuthal_order", "angular_frequency"}
OSAKeys == {"osa_index", "osa", "ansi_index", "ansi"}
NollKeys == {"noll_index", "noll"}
FringeKeys == {"fringe_index", "fringe"}
IndexKeys == OSAKeys \cup NollKeys \cup FringeKeys
OtherKeys == {"order", "zernike"}
Keys == RadialKeys \cup AzimuthKeys \cup IndexKeys \cup OtherKeys

CONSTANTS Part          \* which part of the table: "keys" (keyword sets), "orders" (values of (m, n)), "index" (values of an index)
NotInt == {"float", "str", "none", "list"}

VARIABLES args          \* set of <<keyword, kind, value>>; kind = "int" or one of NotInt

FirstOSA(n) == (n * (n + 1)) \div 2
(* meaning of a specification: set of denoted (m, n), empty if it denotes nothing *)
Denoted == LET ks == {a[1] : a \in args} IN
   IF \E a \in args : a[2] # "int" THEN {}
   ELSE IF Cardinality(args) = 1 THEN
      LET a == CHOOSE x \in args : TRUE
          o == CASE a[1] \in OSAKeys -> IF a[3] >= 0 THEN OSAInverse(a[3]) ELSE <<0, -1>>
                 [] a[1] \in NollKeys -> IF a[3] >= 1 THEN NollInverse(a[3]) ELSE <<0, -1>>
                 [] a[1] \in FringeKeys -> IF a[3] >= 1 THEN FringeInverse(a[3]) ELSE <<0, -1>>
                 [] OTHER -> <<0, -1>>
      IN IF ValidOrders(o[1], o[2]) /\ o[2] <= MaxOrder THEN {o} ELSE {}
   ELSE IF Cardinality(args) = 2 /\ Cardinality(ks \cap RadialKeys) = 1 /\ Cardinality(ks \cap AzimuthKeys) = 1 THEN
      LET r == CHOOSE x \in args : x[1] \in RadialKeys
          a == CHOOSE x \in args : x[1] \in AzimuthKeys
      IN IF ValidOrders(a[3], r[3]) /\ r[3] <= MaxOrder THEN {<<a[3], r[3]>>} ELSE {}
   ELSE {}

IndexValues == (-3..40) \cup {54, 55, 100, 500, 1000, 1431, 1432, 1483, 1484, 1485, 1486, 1500, 1538, 1539, 1540, 1541, 1600, 2000,
                2500, 2914, 2915, 2916, 2917, 2918, 3000, 3024, 3025, 3026, 5000, 100000}

Init == args = {}
AddKey == /\ Part = "keys" /\ Cardinality(args) < 3
          /\ \E k \in Keys \ {a[1] : a \in args}, kind \in ({"int"} \cup NotInt) :
               /\ (Cardinality(args) = 2 => kind = "int")
               /\ args' = args \cup {<<k, kind, IF k \in AzimuthKeys THEN 0 ELSE IF k \in RadialKeys THEN 4 ELSE 12>>}
AddOrders == /\ Part = "orders" /\ args = {}
             /\ \E n \in -3..60, m \in -60..60 : args' = {<<"n", "int", n>>, <<"m", "int", m>>}
AddOrdersAlias == /\ Part = "orders" /\ args = {}
                  /\ \E n \in -1..6, m \in -6..6, rk \in RadialKeys, ak \in AzimuthKeys : args' = {<<rk, "int", n>>, <<ak, "int", m>>}
AddIndex == /\ Part = "index" /\ args = {}
            /\ \E k \in IndexKeys, v \in IndexValues : args' = {<<k, "int", v>>}
AddWrong == /\ Part = "index" /\ args = {}
            /\ \E k \in IndexKeys, kind \in NotInt : args' = {<<k, kind, 4>>}
Next == AddKey \/ AddOrders \/ AddOrdersAlias \/ AddIndex \/ AddWrong

(* properties of the table *)
AtMostOneMeaning == Cardinality(Denoted) <= 1
DenotesSupported == \A o \in Denoted : ValidOrders(o[1], o[2]) /\ o[2] <= MaxOrder
(* an accepted index denotes the polynomial that has this index *)
IndexConsistent == \A a \in args : (Cardinality(args) = 1 /\ Denoted # {}) =>
      LET o == CHOOSE x \in Denoted : TRUE IN
         CASE a[1] \in OSAKeys -> OSAIndex(o[1], o[2]) = a[3] [] a[1] \in NollKeys -> NollIndex(o[1], o[2]) = a[3]
           [] a[1] \in FringeKeys -> FringeIndex(o[1], o[2]) = a[3]
Emit == PrintT(ToJson([args |-> args, ok |-> Denoted,
                       idx |-> {<<OSAIndex(o[1], o[2]), NollIndex(o[1], o[2]), FringeIndex(o[1], o[2])>> : o \in Denoted}]))
=================================================================================
