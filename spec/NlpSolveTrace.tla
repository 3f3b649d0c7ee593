---------------------------- MODULE NlpSolveTrace ----------------------------
(* Solving an NLP through Ipopt: the problems are small convex QPs (variable   *)
(* bounds first), so that every outcome is decided by the theory in QPMath.    *)
EXTENDS QPMath, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
VARIABLES idx, k, cls, why
vars == <<idx, k, cls, why>>
C == Cases[idx]
T == Trace[idx]
P0 == C.p
Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>

Opt == 0
PInf == 1
DInf == 2
MaxIt == 3

\* strictly convex, some point strictly inside all inequalities, independent equations only
Interior(p) ==
  /\ Strict(p)
  /\ \A i \in 1..p.m : IsEq(p, i) => i <= p.n
  /\ HasPoint({[j \in 1..p.n |-> 2 * p.A[i][j]] \o <<2 * p.u[i] - 1>> : i \in {i \in 1..p.m : p.uf[i] = 1 /\ ~IsEq(p, i)}} \cup
               {[j \in 1..p.n |-> -2 * p.A[i][j]] \o <<-2 * p.l[i] - 1>> : i \in {i \in 1..p.m : p.lf[i] = 1 /\ ~IsEq(p, i)}} \cup
               {p.A[i] \o <<p.u[i]>> : i \in EqRows(p)} \cup {Neg(p.A[i]) \o <<-p.l[i]>> : i \in EqRows(p)}, p.n)
  /\ \E j \in 1..p.n : ~IsEq(p, j)

\* Ipopt removes fixed variables from the problem and reports no multipliers for them
FixedVar(j) == j <= P0.n /\ IsEq(P0, j)
YFull(r) == LET P == PMat(P0)
                y0 == [j \in 1..P0.m |-> IF FixedVar(j) THEN 0 ELSE r.y[j]]
            IN [j \in 1..P0.m |-> IF FixedVar(j) THEN -(Dot(P[j], r.x) + P0.q[j] * r.S + TMatVec(P0.A, y0, P0.n)[j]) ELSE r.y[j]]

\* with as many equations as free variables Ipopt only looks for a feasible point
Square(p) == Cardinality({i \in (p.n + 1)..p.m : IsEq(p, i)}) >= p.n - Cardinality({j \in 1..p.n : IsEq(p, j)})

Judge(run, r) ==
  Rule("answer is finite and has the right dimensions", (r.status = Opt /\ Interior(P0)) => r.fin = 1) \o
  Rule("Optimal only for feasible problems with a minimum", r.status = Opt => cls = "solvable" \/ (Square(P0) /\ cls = "unbounded")) \o
  Rule("PrimalInfeasible only for infeasible problems", r.status = PInf => cls \in {"infeasible", "infeasible-ray"}) \o
  Rule("DualInfeasible only for unbounded problems", r.status = DInf => cls \in {"unbounded", "infeasible-ray"}) \o
  Rule("MaxIterations only at the iteration limit", r.status = MaxIt => r.iter = run.maxit) \o
  Rule("iteration limit respected", r.iter <= run.maxit) \o
  Rule("early termination is not mistaken for a result", r.evals = 0 => r.status = 5) \o
  Rule("well-posed problems are solved", (cls = "solvable" /\ run.maxit > 100 /\ Interior(P0)) => r.status = Opt) \o
  Rule("evaluations are of the wrapped problem only", r.nh = 0 \/ run.opt = 1) \o
  (IF r.status # Opt \/ r.fin = 0 THEN <<>> ELSE
   Rule("primal constraints hold", PrimalOK(P0, r.x, r.S, 1000, 1000)) \o
   (IF Square(P0) THEN <<>> ELSE
   Rule("stationarity with the documented signs", DualOK(P0, r.x, YFull(r), r.S, 1000, 1000)) \o
   Rule("multipliers are signed and complementary", ComplOK(P0, r.x, YFull(r), r.S, 1000, 1000))) \o
   Rule("bound multipliers are nonnegative", r.zneg = 0) \o
   Rule("objective is the value at the returned point", ObjectiveOK(P0, r.xo, r.vo, r.So)))

Init == idx \in 1..Len(Cases) /\ k = 0 /\ cls = "?" /\ why = <<>>
Classify == k = 0 /\ T.ev = "ok" /\ cls' = Class(P0) /\ k' = 1 /\ UNCHANGED <<idx, why>>
Solve == /\ k >= 1 /\ k <= Len(C.runs) /\ why = <<>>
         /\ why' = Judge(C.runs[k], T.res[k]) /\ k' = k + 1 /\ UNCHANGED <<idx, cls>>
NoAnswer == /\ k = 0 /\ T.ev \in {"crash", "hang"}
            /\ why' = <<"the solver returns (no " \o T.ev \o ")">> /\ k' = -1 /\ UNCHANGED <<idx, cls>>
Next == Classify \/ Solve \/ NoAnswer
Spec == Init /\ [][Next]_vars
Conforms == why = <<>>
WellFormed == Len(Trace) = Len(Cases) /\ T.id = C.id
=============================================================================
