------------------------------- MODULE KernelCrop -------------------------------
(* Cropping of a square kernel of odd size.  First the kernel is chosen ring by ring from the border to the centre: every ring is described by    *)
(* its marked cells (cells at or above the threshold); then the rings are removed one by one while the ring has no cell that reaches the              *)
(* threshold.  The centre holds the maximum, hence never goes below the threshold (a part below one half of the maximum).                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes
VARIABLES s, marks, phase, cut
vars == <<s, marks, phase, cut>>
Rings == (s - 1) \div 2                       \* without the centre
Last == s - 1
(* marks of the ring k = 0.. : positions <<row, col>> *)
Mid(k) == s \div 2
Off(k) == IF s - 2 * k > 3 THEN k + 1 ELSE k         \* a cell next to the corner
Mark(k, what) == CASE what = "none" -> {}
                  [] what = "N" -> {<<k, Mid(k)>>} [] what = "S" -> {<<Last - k, Mid(k)>>}
                  [] what = "W" -> {<<Mid(k), k>>} [] what = "E" -> {<<Mid(k), Last - k>>}
                  [] what = "NW" -> {<<k, k>>} [] what = "SE" -> {<<Last - k, Last - k>>}
                  [] what = "NE" -> {<<k, Last - k>>} [] what = "SW" -> {<<Last - k, k>>}
                  [] what = "offS" -> {<<Last - k, Off(k)>>} [] what = "offE" -> {<<Off(k), Last - k>>}
                  [] what = "NS" -> {<<k, Mid(k)>>, <<Last - k, Mid(k)>>}
                  [] what = "WEN" -> {<<Mid(k), k>>, <<Mid(k), Last - k>>, <<k, Mid(k)>>}
What == {"none", "N", "S", "W", "E", "NW", "SE", "NE", "SW", "offS", "offE", "NS", "WEN"}
Init == s \in Sizes /\ marks = <<>> /\ phase = "choose" /\ cut = 0
Choose == /\ phase = "choose" /\ Len(marks) < Rings
          /\ \E w \in (IF Len(marks) <= 1 THEN What ELSE {"none", "N", "S", "W", "E", "SE"}) : marks' = Append(marks, w)
          /\ UNCHANGED <<s, phase, cut>>
Start == phase = "choose" /\ Len(marks) = Rings /\ phase' = "crop" /\ UNCHANGED <<s, marks, cut>>
RingIsWeak(k) == k < Rings /\ Mark(k, marks[k + 1]) = {}
Strip == phase = "crop" /\ s > 3 /\ RingIsWeak(cut) /\ cut' = cut + 1 /\ UNCHANGED <<s, marks, phase>>
Stop == phase = "crop" /\ ~(s > 3 /\ RingIsWeak(cut)) /\ phase' = "done" /\ UNCHANGED <<s, marks, cut>>
Next == Choose \/ Start \/ Strip \/ Stop
AllMarks == UNION {Mark(k, marks[k + 1]) : k \in 0..(Len(marks) - 1)}
Kept(c) == c[1] >= cut /\ c[1] <= Last - cut /\ c[2] >= cut /\ c[2] <= Last - cut
NothingLost == phase # "choose" => \A c \in AllMarks : Kept(c)
Maximal == (phase = "done" /\ s > 3 /\ cut < Rings) => \E c \in AllMarks : c[1] \in {cut, Last - cut} \/ c[2] \in {cut, Last - cut}
OddCentred == (s - 2 * cut) % 2 = 1 /\ cut <= Rings
SmallKept == s <= 3 => cut = 0
RingOf(c) == CHOOSE k \in 0..Rings : \/ (c[1] \in {k, Last - k} /\ c[2] \in k..(Last - k))
                                     \/ (c[2] \in {k, Last - k} /\ c[1] \in k..(Last - k))
MarksOnRing == \A k \in 0..(Len(marks) - 1) : \A c \in Mark(k, marks[k + 1]) : RingOf(c) = k
Emit == phase = "done" => PrintT(ToJson([s |-> s, marks |-> AllMarks, cut |-> cut]))
=================================================================================
