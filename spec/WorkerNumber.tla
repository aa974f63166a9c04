------------------------------ MODULE WorkerNumber ------------------------------
(* How many workers a dispatcher starts on a machine with Cpus processors (0: their number is unknown) when Asked are requested (0..: a number,      *)
(* -1: a negative one, -2: nothing is requested), and why this number matters: jobs are done by the workers in turns, so that without any worker     *)
(* a computation never ends.  Least is the smallest default number.                                                                                  *)
EXTENDS Integers, TLC, Json
CONSTANTS CpuNumbers, AskedNumbers, Least, MaxJobs
VARIABLES cpus, asked, used, warned, left, stage
vars == <<cpus, asked, used, warned, left, stage>>
Known(c) == IF c = 0 THEN 1 ELSE c
Default(c) == IF (c \div 2) < Least THEN Least ELSE c \div 2
Nothing == -2
Init == /\ cpus \in CpuNumbers /\ asked \in AskedNumbers
        /\ used = 0 /\ warned = FALSE /\ left = 0 /\ stage = "new"
Possible == asked # Nothing /\ asked >= 2 /\ asked <= Known(cpus)
Create == /\ stage = "new"
          /\ used' = (IF Possible THEN asked ELSE Default(Known(cpus)))
          /\ warned' = (asked # Nothing /\ ~Possible)
          /\ left' \in used'..MaxJobs              \* fewer jobs than workers are rejected
          /\ stage' = "computing" /\ UNCHANGED <<cpus, asked>>
Turn == /\ stage = "computing" /\ left > 0 /\ used > 0
        /\ \E k \in 1..used : k <= left /\ left' = left - k
        /\ UNCHANGED <<cpus, asked, used, warned, stage>>
End == stage = "computing" /\ left = 0 /\ stage' = "done" /\ UNCHANGED <<cpus, asked, used, warned, left>>
Next == Create \/ Turn \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Created == stage # "new"
SomeWorker == Created => used >= 1
NotAbove == Created => used <= Known(cpus)
Honoured == (Created /\ ~warned /\ asked # Nothing) => used = asked
Terminates == <>(stage = "done")
Emit == (stage = "computing" /\ left = used) => PrintT(ToJson([cpu |-> cpus, known |-> Known(cpus), asked |-> asked, used |-> used, warned |-> warned]))
=================================================================================
