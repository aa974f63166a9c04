-------------------------------- MODULE DispLife --------------------------------
(* The interface of several dispatchers used by one client.  A computation may be left running (Begin .. End) while the others are used.                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Ms
Params == {"short", "long", "bad"}      \* as many parameters as workers; more of them; some for which the function raises
VARIABLES st, par, busy, last
View == <<st, par, busy>>
vars == <<st, par, busy, last>>
Init == st = [m \in Ms |-> "absent"] /\ par = [m \in Ms |-> "-"] /\ busy = "-" /\ last = <<"none">>
Free(m) == busy # m
Create(m, p) == /\ busy = "-" /\ st[m] # "open" /\ st' = [st EXCEPT ![m] = "open"] /\ par' = [par EXCEPT ![m] = p] /\ UNCHANGED busy
                /\ last' = <<"create", m, p>>
Compute(m) == /\ Free(m) /\ st[m] # "absent"
              /\ LET r == IF st[m] = "closed" THEN "refused" ELSE IF par[m] = "bad" THEN "error" ELSE "results" IN
                 /\ last' = <<"compute", m, r>>
                 /\ st' = IF r = "error" THEN [st EXCEPT ![m] = "closed"] ELSE st
                 /\ par' = IF r = "error" THEN [par EXCEPT ![m] = "-"] ELSE par
              /\ UNCHANGED busy
Begin(m) == /\ busy = "-" /\ st[m] = "open" /\ par[m] # "bad" /\ busy' = m /\ UNCHANGED <<st, par>> /\ last' = <<"begin", m>>
End(m) == busy = m /\ busy' = "-" /\ UNCHANGED <<st, par>> /\ last' = <<"end", m>>
Update(m, p) == /\ Free(m) /\ st[m] # "absent" /\ par' = IF st[m] = "open" THEN [par EXCEPT ![m] = p] ELSE par
                /\ UNCHANGED <<st, busy>> /\ last' = <<"update", m, p>>
BadUpdate(m, k) == Free(m) /\ st[m] = "open" /\ UNCHANGED View /\ last' = <<"badupdate", m, k>>
Close(m) == /\ Free(m) /\ st[m] # "absent" /\ st' = [st EXCEPT ![m] = "closed"] /\ par' = [par EXCEPT ![m] = "-"] /\ UNCHANGED busy
            /\ last' = <<"close", m>>
Drop(m) == /\ Free(m) /\ st[m] # "absent" /\ st' = [st EXCEPT ![m] = "absent"] /\ par' = [par EXCEPT ![m] = "-"] /\ UNCHANGED busy
           /\ last' = <<"drop", m>>
Next == \E m \in Ms : \/ \E p \in Params : Create(m, p) \/ Update(m, p)
                      \/ Compute(m) \/ Begin(m) \/ End(m) \/ Close(m) \/ Drop(m)
                      \/ \E k \in {"empty", "few"} : BadUpdate(m, k)
Isolated == [][\A m \in Ms : (st'[m] # st[m] \/ par'[m] # par[m]) => last'[2] = m]_vars
ClosedStays == [][\A m \in Ms : (st[m] = "closed" /\ st'[m] = "open") => last'[1] = "create"]_vars
BusyOpen == busy # "-" => st[busy] = "open"
Edge == PrintT(ToJson([f |-> View, a |-> last', t |-> View']))
=================================================================================
