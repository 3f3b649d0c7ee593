--------------------------- MODULE ScheduleDesign ---------------------------
(* Time stepping: the filter covers [0, tau] in steps of at most dt, and the   *)
(* safety filter visits the instants 0, tau, 2 tau, .. with steps of at most   *)
(* dt that end exactly on the instants.                                        *)
EXTENDS Integers, Sequences
CONSTANTS MaxT, MaxK
VARIABLES mode, tau, dt, K, t, n, last, at
vars == <<mode, tau, dt, K, t, n, last, at>>
Init == /\ mode \in {"filter", "safety"} /\ tau \in 1..MaxT /\ dt \in 1..(2 * MaxT) /\ K \in 1..MaxK
        /\ t = 0 /\ n = 0 /\ last = 0 /\ at = <<>>
\* predict: full steps while something remains beyond one, then the rest
Filter == /\ mode = "filter" /\ t < tau
          /\ last' = (IF t + dt < tau THEN dt ELSE tau - t) /\ t' = t + last' /\ n' = n + 1 /\ UNCHANGED <<mode, tau, dt, K, at>>
\* asif_to_qp: row block Len(at) is written at instant tau * Len(at)
Row == /\ mode = "safety" /\ Len(at) < K /\ t >= tau * Len(at) /\ at' = Append(at, t) /\ UNCHANGED <<mode, tau, dt, K, t, n, last>>
Mn(a, b) == IF a < b THEN a ELSE b
Move == /\ mode = "safety" /\ Len(at) \in 1..(K - 1) /\ t < tau * Len(at)
        /\ last' = Mn(Mn(dt, tau), tau * Len(at) - t) /\ t' = t + last' /\ n' = n + 1 /\ UNCHANGED <<mode, tau, dt, K, at>>
Next == Filter \/ Row \/ Move
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
StepsPositive == n > 0 => last > 0 /\ last <= dt
NoOvershoot == mode = "filter" => t <= tau
Instants == \A i \in DOMAIN at : at[i] = tau * (i - 1)
FewSteps == mode = "filter" => n <= (tau + dt - 1) \div dt
Complete == <>(IF mode = "filter" THEN t = tau ELSE Len(at) = K)
=============================================================================
