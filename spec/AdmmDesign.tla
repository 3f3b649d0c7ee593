----------------------------- MODULE AdmmDesign -----------------------------
(* The iteration loop of the QP solver and its exit codes.  Two runs of the    *)
(* same problem side by side: run 1 without limits, run 2 with an iteration    *)
(* limit and/or a time limit.  Environment: the iterate satisfies the stopping *)
(* criterion from iteration conv on with verdict vd (never, if conv = -1), the *)
(* clock passes the limit at iteration exp (-1: never), polishing works or not.*)
EXTENDS Integers, Sequences
CONSTANTS MaxIter, MaxStop, Horizon
VARIABLES par, it, code, polished
vars == <<par, it, code, polished>>
None == "none"
Pars == [stop : 1..MaxStop, maxit : -1..MaxIter, timed : BOOLEAN, exp : -1..MaxIter, conv : -1..MaxIter,
         vd : {"Optimal", "PrimalInfeasible", "DualInfeasible"}, polish : BOOLEAN, pok : BOOLEAN, bad : BOOLEAN]
Init == par \in Pars /\ it = <<0, 0>> /\ polished = <<FALSE, FALSE>>
        \* bounds that are trivially contradictory are noticed before the loop
        /\ code = [r \in 1..2 |-> IF par.bad THEN "PrimalInfeasible" ELSE None]
Check(i) == i % par.stop = 1 % par.stop
Limit(r) == r = 2 /\ par.maxit >= 0 /\ it[r] = par.maxit
\* iteration with index it[r]; the check comes after the update, the clock is read only if there is no verdict
Iterate(r) ==
  /\ code[r] = None /\ ~Limit(r) /\ it[r] < Horizon
  /\ it' = [it EXCEPT ![r] = @ + 1]
  /\ code' = [code EXCEPT ![r] = IF ~Check(it[r]) THEN None
                                 ELSE IF par.conv >= 0 /\ it[r] >= par.conv THEN par.vd
                                 ELSE IF r = 2 /\ par.timed /\ par.exp >= 0 /\ it[r] >= par.exp THEN "MaxTime" ELSE None]
  /\ UNCHANGED <<par, polished>>
Exhausted(r) == /\ code[r] = None /\ Limit(r) /\ code' = [code EXCEPT ![r] = "MaxIterations"] /\ UNCHANGED <<par, it, polished>>
Polish(r) == /\ code[r] = "Optimal" /\ par.polish /\ ~polished[r] /\ polished' = [polished EXCEPT ![r] = TRUE]
             /\ code' = [code EXCEPT ![r] = IF par.pok THEN "Optimal" ELSE "PolishFailed"] /\ UNCHANGED <<par, it>>
Next == \E r \in 1..2 : Iterate(r) \/ Exhausted(r) \/ Polish(r)
Spec == Init /\ [][Next]_vars /\ \A r \in 1..2 : WF_vars(Iterate(r) \/ Exhausted(r) \/ Polish(r))

Done(r) == code[r] # None /\ (code[r] = "Optimal" /\ par.polish => polished[r])
Both == Done(1) /\ Done(2)
WithinLimit == par.maxit >= 0 => it[2] <= par.maxit
HonestIter == code[2] = "MaxIterations" => par.maxit >= 0 /\ it[2] = par.maxit
HonestTime == code[2] = "MaxTime" => par.timed
Unlimited == code[1] \notin {"MaxIterations", "MaxTime"}
HonestPolish == \A r \in 1..2 : code[r] = "PolishFailed" => par.polish /\ ~par.pok
Scheduled == \A r \in 1..2 : (Done(r) /\ code[r] # "MaxIterations" /\ ~par.bad) => Check(it[r] - 1)
\* the relational rules of QPTrace
TooSmall == (Both /\ par.maxit >= 0 /\ par.maxit < it[1] /\ ~par.bad) => code[2] \in {"MaxIterations"} \cup (IF par.timed THEN {"MaxTime"} ELSE {})
LargeEnough == (Both /\ ~par.timed /\ (par.maxit < 0 \/ par.maxit >= it[1])) => code[2] = code[1] /\ it[2] = it[1]
TimeOnlyStops == (Both /\ code[2] \notin {"MaxTime", "MaxIterations"}) => code[2] = code[1] /\ it[2] = it[1]
FirstCheck == (Done(2) /\ par.timed /\ par.exp = 0 /\ ~par.bad) => it[2] <= par.stop + 1
\* verdicts come when there is something to find
Terminates == (par.conv >= 0) ~> Done(1)
Bounded == (par.maxit >= 0 \/ par.conv >= 0) ~> Done(2)
=============================================================================
