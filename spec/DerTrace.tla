------------------------------ MODULE DerTrace ------------------------------
(* The derivative test as a walk over the tested points: it passes exactly     *)
(* when no analytic derivative that the functions offer was wrong, by more     *)
(* than the tolerance, at any of them.                                         *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
VARIABLES idx, k, bad, why
vars == <<idx, k, bad, why>>
C == Cases[idx]
Tr == Trace[idx]
Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>
Abs(x) == IF x < 0 THEN -x ELSE x
\* functions of this form have derivatives of this order
Offered(od) == C.form \in {1, 2} \/ (C.form = 3 /\ od = 1)
\* not a finite number, or not the right shape, or off by more than the tolerance
Matters(p) == p.kind # "add" \/ Abs(p.sz) > C.eps
Wrong(p, pt) == Offered(p.od) /\ Matters(p) /\ p.at \in {0, pt}
Methods == <<"Numerical", "Autodiff", "Ceres">>

Init == idx \in 1..Len(Cases) /\ k = 0 /\ bad = FALSE /\ why = <<>>
Point == /\ Tr.ev = "ok" /\ k < C.trials
         /\ bad' = (bad \/ \E j \in DOMAIN C.plans : Wrong(C.plans[j], k + 1))
         /\ k' = k + 1 /\ UNCHANGED <<idx, why>>
Report == /\ Tr.ev = "ok" /\ k = C.trials /\ why = <<>>
          /\ why' = Rule("right derivatives pass", bad \/ Tr.ok = 1) \o Rule("wrong derivatives are reported", ~bad \/ Tr.ok = 0)
                    \o Rule("compared with the requested method only", \A m \in 1..3 : m = C.dt + 1 \/ Tr.used[m] = 0)
          /\ k' = k + 1 /\ UNCHANGED <<idx, bad>>
NoAnswer == /\ k = 0 /\ Tr.ev \in {"crash", "hang"}
            /\ why' = <<"the test returns (no " \o Tr.ev \o ")">> /\ k' = -1 /\ UNCHANGED <<idx, bad>>
Next == Point \/ Report \/ NoAnswer
Spec == Init /\ [][Next]_vars
Conforms == why = <<>>
WellFormed == Len(Trace) = Len(Cases) /\ Tr.id = C.id
=============================================================================
