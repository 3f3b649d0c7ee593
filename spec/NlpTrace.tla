------------------------------ MODULE NlpTrace ------------------------------
(* The Ipopt adapter as a state machine: its only state is the stored         *)
(* solution (used as starting point, replaced by finalize); every callback     *)
(* answers with the exact value of the polynomial NLP at the queried point,    *)
(* whatever was evaluated before.                                              *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
VARIABLES idx, k, sol, why
vars == <<idx, k, sol, why>>
C == Cases[idx]
T == Trace[idx]
Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>

RECURSIVE SumTo(_, _)
SumTo(f, j) == IF j = 0 THEN 0 ELSE f[j] + SumTo(f, j - 1)
Sum(f) == SumTo(f, Len(f))
N == C.n
M == C.m
Quad(Q, x) == Sum([i \in 1..N |-> Sum([j \in 1..N |-> IF i <= j THEN Q[i][j] * x[i] * x[j] ELSE 0])])
DQuad(Q, x, k0) == Sum([i \in 1..N |-> (IF i <= k0 THEN Q[i][k0] * x[i] ELSE 0) + (IF k0 <= i THEN Q[k0][i] * x[i] ELSE 0)])
\* upper triangle of the Hessian of the quadratic part
HQuad(Q, i, j) == IF i = j THEN 2 * Q[i][i] ELSE Q[i][j]

F(x) == Sum([i \in 1..N |-> C.c[i] * x[i] + C.t[i] * x[i] * x[i] * x[i]]) + Quad(C.Q, x)
DF(x, j) == C.c[j] + 3 * C.t[j] * x[j] * x[j] + DQuad(C.Q, x, j)
Gr(r, x) == Sum([i \in 1..N |-> C.a[r][i] * x[i]]) + Quad(C.b[r], x)
DG(r, x, j) == C.a[r][j] + DQuad(C.b[r], x, j)
H(x, sigma, lam, i, j) ==
  sigma * (HQuad(C.Q, i, j) + (IF i = j THEN 6 * C.t[i] * x[i] ELSE 0)) + Sum([r \in 1..M |-> lam[r] * HQuad(C.b[r], i, j)])

Inf == 1000000000
\* infinite bounds are passed as something Ipopt takes for infinity (beyond +-1e19, projected to +-Inf)
LB(j) == IF C.lf[j] = 0 THEN -Inf ELSE C.l[j]
UB(j) == IF C.uf[j] = 0 THEN Inf ELSE C.u[j]

\* Ipopt's SolverReturn: 0 SUCCESS 1 MAXITER 2 CPUTIME 3 TINY_STEP 4 ACCEPTABLE 5 LOCAL_INFEASIBILITY 6 USER_STOP 7 FEASIBLE_POINT
\* 8 DIVERGING 9 RESTORATION_FAILURE 10 STEP_COMPUTATION 11 INVALID_NUMBER 12 TOO_FEW_DOF 13 INTERNAL
\* status: 0 Optimal 1 PrimalInfeasible 2 DualInfeasible 3 MaxIterations 4 MaxTime 5 Unknown
Status(s) == CASE s \in {0, 4} -> 0 [] s = 1 -> 3 [] s = 2 -> 4 [] s = 5 -> 1 [] s = 8 -> 2 [] OTHER -> 5

\* triplets with the structure announced last (r.st) and values r.v give exactly the matrix A(row, col)
Structure(st, ok(_, _)) == /\ \A p, q \in 1..Len(st) : p # q => st[p] # st[q]
                           /\ \A p \in 1..Len(st) : ok(st[p][1], st[p][2])
Value(st, v, i, j) == Sum([p \in 1..Len(st) |-> IF st[p] = <<i - 1, j - 1>> THEN v[p] ELSE 0])

JacAt(x, r) == /\ Len(r.v) = Len(r.st)
               /\ \A i \in 1..M : \A j \in 1..N : Value(r.st, r.v, i, j) = DG(i, x, j)
HesAt(o, r) == /\ Len(r.v) = Len(r.st)
               /\ \A i \in 1..N : \A j \in i..N : Value(r.st, r.v, j, i) = H(o.x, o.sigma, o.lam, i, j)

Judge(o, r) ==
  Rule("callback succeeds", r.ok = 1) \o
  (CASE o.a = "info" -> Rule("dimensions", r.n = N /\ r.m = M) \o Rule("zero-based indices", r.style = 0) \o
                        Rule("announced structure sizes", r.nj = r.njs /\ r.nh = r.nhs) \o
                        Rule("no Hessian structure without Hessian", C.hess = 1 \/ r.nh = 0)
     [] o.a = "bounds" -> Rule("bounds", \A j \in 1..(N + M) : r.l[j] = LB(j) /\ r.u[j] = UB(j))
     [] o.a = "start" -> Rule("starting point is the stored solution", r.x = sol.x /\ (o.fz = 1 => r.zl = sol.zl /\ r.zu = sol.zu) /\ (o.fl = 1 => r.lam = sol.lam))
     [] o.a = "f" -> Rule("objective", r.val = F(o.x))
     [] o.a = "grad" -> Rule("objective gradient", \A j \in 1..N : r.v[j] = DF(o.x, j))
     [] o.a = "g" -> Rule("constraints", \A i \in 1..M : r.v[i] = Gr(i, o.x))
     [] o.a = "jacS" -> Rule("Jacobian structure", Structure(r.st, LAMBDA i, j : i >= 0 /\ i < M /\ j >= 0 /\ j < N))
     [] o.a = "jac" -> Rule("Jacobian values", JacAt(o.x, r))
     [] o.a = "hesS" -> Rule("Hessian structure is lower triangular", Structure(r.st, LAMBDA i, j : i < N /\ j >= 0 /\ i >= j))
     [] o.a = "hes" -> Rule("Hessian values", HesAt(o, r))
     [] o.a = "final" -> Rule("final status", r.status = Status(o.status)) \o
          Rule("final point and multipliers", r.x = o.x /\ r.zl = o.zl /\ r.zu = o.zu /\ r.lam = o.lam) \o
          Rule("final objective and iterations", r.obj = o.obj /\ r.iter = o.iter))

Init == idx \in 1..Len(Cases) /\ k = 1 /\ sol = C.s0 /\ why = <<>>
Callback ==
  /\ T.ev = "ok" /\ k >= 1 /\ k <= Len(C.ops) /\ why = <<>>
  /\ LET o == C.ops[k] IN
       /\ why' = Judge(o, T.res[k])
       /\ sol' = (IF o.a = "final" THEN [x |-> o.x, zl |-> o.zl, zu |-> o.zu, lam |-> o.lam] ELSE sol)
  /\ k' = k + 1 /\ UNCHANGED idx
NoAnswer == /\ k = 1 /\ T.ev \in {"crash", "hang"}
            /\ why' = <<"every callback returns (no " \o T.ev \o ")">> /\ k' = -1 /\ UNCHANGED <<idx, sol>>
Next == Callback \/ NoAnswer
Spec == Init /\ [][Next]_vars
Conforms == why = <<>>
WellFormed == Len(Trace) = Len(Cases) /\ T.id = C.id
=============================================================================
