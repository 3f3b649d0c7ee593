----------------------------- MODULE OsqpDesign -----------------------------
(* The adapter against an arbitrary OSQP library: the library may refuse the   *)
(* problem before or after allocating a workspace and solving may fail.        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES pc, held, work, warm, code, bad
vars == <<pc, held, work, warm, code, bad>>
Blocks == {"settings", "data", "A", "P"}
Stat == {"Optimal", "PrimalInfeasible", "DualInfeasible", "MaxIterations", "MaxTime", "Unknown"}
Init == pc = "alloc" /\ held = {} /\ work = "unset" /\ warm \in BOOLEAN /\ code = "Unknown" /\ bad = {}
Alloc == pc = "alloc" /\ held' = Blocks /\ pc' = "setup" /\ UNCHANGED <<work, warm, code, bad>>
Setup == /\ pc = "setup" /\ work' \in {"ready", "partial", "null"}   \* null: initialised by the adapter, untouched by the library
         /\ pc' = (IF work' = "ready" THEN IF warm THEN "warm" ELSE "solve" ELSE "cleanup") /\ UNCHANGED <<held, warm, code, bad>>
Call(name, ok) == bad' = (IF ok THEN bad ELSE bad \cup {name})
Warm == pc = "warm" /\ Call("warm", work = "ready") /\ pc' = "solve" /\ UNCHANGED <<held, work, warm, code>>
Solve == /\ pc = "solve" /\ Call("solve", work = "ready") /\ work' = "solved" /\ pc' = "cleanup"
         /\ \E fails \in BOOLEAN, s \in Stat : code' = (IF fails THEN "Unknown" ELSE s)
         /\ UNCHANGED <<held, warm>>
Cleanup == pc = "cleanup" /\ Call("cleanup", work \in {"ready", "partial", "solved", "null"}) /\ work' = "gone" /\ pc' = "free" /\ UNCHANGED <<held, warm, code>>
Free == pc = "free" /\ \E b \in held : held' = held \ {b} /\ pc' = (IF held' = {} THEN "done" ELSE "free") /\ UNCHANGED <<work, warm, code, bad>>
Next == Alloc \/ Setup \/ Warm \/ Solve \/ Cleanup \/ Free
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Legal == bad = {}
NoLeak == pc = "done" => held = {} /\ work = "gone"
Returns == <>(pc = "done")
=============================================================================
