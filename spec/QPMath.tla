------------------------------- MODULE QPMath -------------------------------
(* Exact integer theory of small convex quadratic programs                    *)
(*     min 1/2 x'Px + q'x   s.t.  l <= Ax <= u,      P = B'B                  *)
(* Verdicts (feasible? bounded below?) are decided exactly by Fourier-Motzkin *)
(* elimination; optimality is decided by the KKT conditions in fixed point.   *)
(* A problem p is a record [n, m, B, q, A, lf, l, uf, u]: B and A sequences   *)
(* of integer rows; lf: 0 = no lower bound, 1 = bound l, 2 = +infinity;       *)
(* uf: 0 = no upper bound, 1 = bound u, 2 = -infinity.                        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Dot(a, b) == SumTo([i \in 1..Len(a) |-> a[i] * b[i]], Len(a))

RECURSIVE MaxAbsTo(_, _)
MaxAbsTo(f, k) == IF k = 0 THEN 0 ELSE MaxOf(Abs(f[k]), MaxAbsTo(f, k - 1))
NormInf(f) == MaxAbsTo(f, Len(f))
RECURSIVE SumAbsTo(_, _)
SumAbsTo(f, k) == IF k = 0 THEN 0 ELSE Abs(f[k]) + SumAbsTo(f, k - 1)
Norm1(f) == SumAbsTo(f, Len(f))

Neg(a) == [i \in 1..Len(a) |-> -a[i]]

\* P = B'B (upper and lower triangle)
PMat(p) == [i \in 1..p.n |-> [j \in 1..p.n |->
             SumTo([k \in 1..Len(p.B) |-> p.B[k][i] * p.B[k][j]], Len(p.B))]]
MatVec(M, v) == [i \in 1..Len(M) |-> Dot(M[i], v)]
TMatVec(M, v, n) == [j \in 1..n |-> SumTo([i \in 1..Len(M) |-> M[i][j] * v[i]], Len(M))]

-----------------------------------------------------------------------------
(* Fourier-Motzkin: a row <<a1..an, b>> stands for a.x <= b                   *)

RowGcd(r) == LET RECURSIVE G(_)
                 G(k) == IF k = 0 THEN 0 ELSE Gcd(Abs(r[k]), G(k - 1))
             IN G(Len(r))
Normalize(r) == LET g == RowGcd(r) IN IF g <= 1 THEN r ELSE [i \in 1..Len(r) |-> r[i] \div g]

\* trivially true rows are dropped, of parallel rows only the tightest is kept
Prune(S, n) ==
  LET S1 == {r \in S : ~((\A j \in 1..n : r[j] = 0) /\ r[n+1] >= 0)}
  IN {r \in S1 : ~\E s \in S1 : /\ s # r /\ s[n+1] < r[n+1] /\ \A j \in 1..n : s[j] = r[j]}

Eliminate(S, k, n) ==
  LET pos == {r \in S : r[k] > 0}
      neg == {r \in S : r[k] < 0}
      zer == {r \in S : r[k] = 0}
      comb == {Normalize([i \in 1..(n+1) |-> pr[1][i] * (-pr[2][k]) + pr[2][i] * pr[1][k]]) : pr \in pos \X neg}
  IN Prune(zer \cup comb, n)

RECURSIVE FM(_, _, _)
FM(S, k, n) == IF k = 0 THEN \A r \in S : r[n+1] >= 0
               ELSE IF \E r \in S : (\A j \in 1..n : r[j] = 0) /\ r[n+1] < 0 THEN FALSE
               ELSE FM(Eliminate(S, k, n), k - 1, n)

HasPoint(S, n) == FM(Prune({Normalize(r) : r \in S}, n), n, n)

-----------------------------------------------------------------------------
(* Verdicts                                                                   *)

BoundRows(p) ==
  {p.A[i] \o <<p.u[i]>> : i \in {i \in 1..p.m : p.uf[i] = 1}} \cup
  {Neg(p.A[i]) \o <<-p.l[i]>> : i \in {i \in 1..p.m : p.lf[i] = 1}}

Feasible(p) == /\ \A i \in 1..p.m : p.lf[i] # 2 /\ p.uf[i] # 2
               /\ \A i \in 1..p.m : (p.lf[i] = 1 /\ p.uf[i] = 1) => p.l[i] <= p.u[i]
               /\ HasPoint(BoundRows(p), p.n)

RayRows(p) ==
  {p.B[k] \o <<0>> : k \in 1..Len(p.B)} \cup {Neg(p.B[k]) \o <<0>> : k \in 1..Len(p.B)} \cup
  {p.A[i] \o <<0>> : i \in {i \in 1..p.m : p.uf[i] = 1}} \cup
  {Neg(p.A[i]) \o <<0>> : i \in {i \in 1..p.m : p.lf[i] = 1}} \cup
  {p.q \o <<-1>>}

\* direction d with Pd = 0, q'd < 0 and no bound ever hit
HasRay(p) == HasPoint(RayRows(p), p.n)

\* a feasible problem without a descending ray attains its minimum (Frank-Wolfe)
Class(p) == IF Feasible(p) THEN (IF HasRay(p) THEN "unbounded" ELSE "solvable")
            ELSE (IF HasRay(p) THEN "infeasible-ray" ELSE "infeasible")

(* the same verdict from given witnesses (see QPGen): x feasible, z stationary *)
(* or P >= I, d a descending ray, y a contradictory combination of bounds      *)
HasIdentity(p) == Len(p.B) >= p.n /\ \A k \in 1..p.n : \A j \in 1..p.n : p.B[k][j] = IF j = k THEN 1 ELSE 0
WitnessClass(p, w) ==
  LET Bz == [k \in DOMAIN p.B |-> Dot(p.B[k], w.z)]
      fea == \A i \in 1..p.m : LET a == Dot(p.A[i], w.x) IN (p.lf[i] = 1 => p.l[i] <= a) /\ (p.uf[i] = 1 => a <= p.u[i])
      bounded == HasIdentity(p) \/ \A j \in 1..p.n : Dot([k \in DOMAIN p.B |-> p.B[k][j]], Bz) + p.q[j] = 0
      ray == /\ \A k \in DOMAIN p.B : Dot(p.B[k], w.d) = 0
             /\ Dot(p.q, w.d) < 0
             /\ \A i \in 1..p.m : LET a == Dot(p.A[i], w.d) IN (p.uf[i] = 1 => a <= 0) /\ (p.lf[i] = 1 => a >= 0)
      contra == /\ \A j \in 1..p.n : SumTo([i \in 1..p.m |-> w.y[i] * p.A[i][j]], p.m) = 0
                /\ \A i \in 1..p.m : (w.y[i] > 0 => p.uf[i] = 1) /\ (w.y[i] < 0 => p.lf[i] = 1)
                /\ SumTo([i \in 1..p.m |-> IF w.y[i] > 0 THEN w.y[i] * p.u[i] ELSE w.y[i] * p.l[i]], p.m) < 0
  IN IF fea /\ bounded THEN "solvable" ELSE IF fea /\ ray THEN "unbounded"
     ELSE IF contra /\ bounded THEN "infeasible" ELSE IF contra /\ ray THEN "infeasible-ray" ELSE "no witness"

(* A primal certificate dy is accepted within eps: |A'dy| <= eps |dy| and      *)
(* support < -eps |dy|.  For feasible x the support is at least               *)
(* -eps |dy| |x|_1, so a false certificate is impossible if some feasible     *)
(* point has |x|_1 <= 1.                                                      *)
RobustlyFeasible(p) == HasPoint(BoundRows(p) \cup {Append(s, 1) : s \in [1..p.n -> {-1, 1}]}, p.n)

(* A descending ray d is accepted within eps: |Pd| <= eps |d|, q'd < -eps |d| *)
(* and Ad within eps |d| of the recession cone.  If Pz + q = 0 then q'd = -z'Pd *)
(* is at least -eps |d| |z|_1, so a false ray is impossible if some |z|_1 <= 1. *)
GradRows(p) == {[j \in 1..p.n + 1 |-> IF j <= p.n THEN s * Dot([k \in DOMAIN p.B |-> p.B[k][i]], [k \in DOMAIN p.B |-> p.B[k][j]])
                                      ELSE -s * p.q[i]] : i \in 1..p.n, s \in {-1, 1}}
RobustlyBounded(p) == HasPoint(GradRows(p) \cup {Append(s, 1) : s \in [1..p.n -> {-1, 1}]}, p.n)

-----------------------------------------------------------------------------
(* Optimality in fixed point: x, y are integers in units of 1/S               *)
(* ea, er: absolute/relative tolerance in parts per 10^6                      *)

\* v * e / 10^6 for 0 <= v < 2^31, 0 <= e <= 10^5
Micro(v, e) == LET a == v \div 10000 b == v % 10000 IN (a * e) \div 100 + (b * e) \div 1000000

RowTol(p, x, S, ea, er) ==
  LET Ax == MatVec(p.A, x) IN Micro(S, ea) + Micro(NormInf(Ax), er)

PrimalOK(p, x, S, ea, er) ==
  LET Ax == MatVec(p.A, x)
      tol == Micro(S, ea) + Micro(MaxOf(NormInf(Ax),0), er)
  IN \A i \in 1..p.m :
       LET slack == tol + Norm1(p.A[i]) + 1 + Micro(tol, 50000)
       IN /\ p.uf[i] = 1 => Ax[i] <= p.u[i] * S + slack
          /\ p.lf[i] = 1 => Ax[i] >= p.l[i] * S - slack

DualOK(p, x, y, S, ea, er) ==
  LET P == PMat(p)
      Px == MatVec(P, x)
      Aty == TMatVec(p.A, y, p.n)
      scale == MaxOf(NormInf(Px), MaxOf(NormInf(p.q) * S, NormInf(Aty)))
      tol == Micro(S, ea) + Micro(scale, er)
  IN \A j \in 1..p.n :
       LET slack == tol + Micro(tol, 50000) + Norm1(P[j]) + SumTo([i \in 1..p.m |-> Abs(p.A[i][j])], p.m) + 1
       IN Abs(Px[j] + p.q[j] * S + Aty[j]) <= slack

\* multipliers are signed and complementary
ComplOK(p, x, y, S, ea, er) ==
  LET Ax == MatVec(p.A, x)
      ptol == Micro(S, ea) + Micro(NormInf(Ax), er)
      stol == 2 + Micro(S, ea) + Micro(NormInf(y), er)
  IN \A i \in 1..p.m :
       LET slack == 2 * ptol + Norm1(p.A[i]) + 2
       IN /\ y[i] > stol => p.uf[i] = 1 /\ Ax[i] >= p.u[i] * S - slack
          /\ y[i] < -stol => p.lf[i] = 1 /\ Ax[i] <= p.l[i] * S + slack

\* objective v (units 1/S) of point x (units 1/S), both with small S (S*S*W < 2^31)
ObjectiveOK(p, x, v, S) ==
  LET P == PMat(p)
      g == [j \in 1..p.n |-> Dot(P[j], x) + 2 * p.q[j] * S]     \* (Px + 2q) * S
      t == [j \in 1..p.n |-> (x[j] \div S) * g[j] + ((x[j] % S) * g[j]) \div S]
      slack == 4 + Norm1(g) \div S + SumTo([j \in 1..p.n |-> Norm1(P[j]) * (Abs(x[j]) \div S + 1)], p.n)
  IN Abs(SumTo(t, p.n) - 2 * v) <= slack

-----------------------------------------------------------------------------
(* Exact optimum of strictly convex problems by enumeration of active sets    *)

RECURSIVE Det(_)
Minor(M, c) == [i \in 1..(Len(M)-1) |-> [j \in 1..(Len(M)-1) |-> M[i+1][IF j < c THEN j ELSE j + 1]]]
Det(M) == IF Len(M) = 0 THEN 1 ELSE IF Len(M) = 1 THEN M[1][1]
          ELSE SumTo([c \in 1..Len(M) |-> IF M[1][c] = 0 THEN 0
                        ELSE (IF c % 2 = 1 THEN 1 ELSE -1) * M[1][c] * Det(Minor(M, c))], Len(M))
ReplCol(M, c, v) == [i \in 1..Len(M) |-> [M[i] EXCEPT ![c] = v[i]]]

IsEq(p, i) == p.lf[i] = 1 /\ p.uf[i] = 1 /\ p.l[i] = p.u[i]
EqRows(p) == {i \in 1..p.m : IsEq(p, i)}

RECURSIVE SetToSorted(_)
SetToSorted(S) == IF S = {} THEN <<>> ELSE LET m == Min(S) IN <<m>> \o SetToSorted(S \ {m})

\* KKT system for active rows W (sequence) at bounds b (sequence): numerators and denominator
KKTSolve(p, W, b) ==
  LET k == p.n + Len(W)
      P == PMat(p)
      M == [i \in 1..k |-> [j \in 1..k |->
             IF i <= p.n /\ j <= p.n THEN P[i][j]
             ELSE IF i <= p.n THEN p.A[W[j - p.n]][i]
             ELSE IF j <= p.n THEN p.A[W[i - p.n]][j] ELSE 0]]
      rhs == [i \in 1..k |-> IF i <= p.n THEN -p.q[i] ELSE b[i - p.n]]
      d == Det(M)
  IN [d |-> d, z |-> IF d = 0 THEN <<>> ELSE [c \in 1..k |-> Det(ReplCol(M, c, rhs))]]

\* W with upper set U is the strictly complementary, linearly independent active set of the optimum
StrictlyActive(p, W, U) ==
  LET ws == SetToSorted(W)
      b  == [i \in 1..Len(ws) |-> IF ws[i] \in U THEN p.u[ws[i]] ELSE p.l[ws[i]]]
      s  == KKTSolve(p, ws, b)
      sg == IF s.d > 0 THEN 1 ELSE -1
      D  == Abs(s.d)
      x  == [j \in 1..p.n |-> s.z[j] * sg]
  IN /\ s.d # 0
     /\ \A i \in (1..p.m) \ W : LET ax == Dot(p.A[i], x) IN
            /\ p.uf[i] = 1 => ax < p.u[i] * D
            /\ p.lf[i] = 1 => ax > p.l[i] * D
     /\ \A k \in 1..Len(ws) : IsEq(p, ws[k]) \/
            (IF ws[k] \in U THEN s.z[p.n + k] * sg > 0 ELSE s.z[p.n + k] * sg < 0)
     /\ \A k \in 1..Len(ws) : IsEq(p, ws[k]) => s.z[p.n + k] # 0

Strict(p) == Det(PMat(p)) # 0

\* strictly convex with a strictly complementary, nondegenerate optimum
Nondegenerate(p) ==
  /\ Strict(p)
  /\ \E W \in {W \in SUBSET (1..p.m) : Cardinality(W) <= p.n /\ EqRows(p) \subseteq W} :
       \E U \in SUBSET W :
         /\ \A i \in U : p.uf[i] = 1
         /\ \A i \in W \ U : p.lf[i] = 1
         /\ \A i \in EqRows(p) : i \notin U
         /\ StrictlyActive(p, W, U)
=============================================================================
