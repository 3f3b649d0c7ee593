------------------------------ MODULE EkfTrace ------------------------------
(* Extended Kalman filter on a Lie group: state (estimate, covariance) moves by *)
(* Euler steps of the right-invariant error dynamics and by Kalman updates.     *)
(* States are tracked exactly as long as they are integers (var exact); beyond  *)
(* that every operation must still act as on a fresh filter (observable eq).    *)
EXTENDS LieModel, Json, IOUtils, TLC
CONSTANT Prop
Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
VARIABLES idx, k, g, P, exact, why
vars == <<idx, k, g, P, exact, why>>
C == Cases[idx]
T == Trace[idx]
N == LDim(C.g)
Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>
Abs(x) == IF x < 0 THEN -x ELSE x
S == 2400

Upper(m) == TLCEval([a \in DOMAIN m |-> TLCEval([b \in DOMAIN m |-> IF b < a THEN m[b][a] ELSE m[a][b]])])
Lin(o, t) == MatAdd(o.A, MatScale(t, o.A2))
Dyn(o, t, x) == VAdd(MatVec(Lin(o, t), x), VAdd(VScale(t, o.b), o.c))
ErrDyn(o, t, x) == MatAdd(MatScale(-1, AdMat(C.g, Dyn(o, t, x))), MatMul(Lin(o, t), DrInv(C.g, x)))
CovStep(o, t, x, p, h) == LET A == ErrDyn(o, t, x) IN MatAdd(p, MatScale(h, MatAdd(MatAdd(MatMul(A, p), MatMul(p, MatT(A))), Upper(o.Q))))

\* Euler steps of at most dt covering [0, tau]; dt = 0: a single step.
\* <<>>: left the range in which 32 bit integers are exact
VIn(v, b) == \A i \in DOMAIN v : Abs(v[i]) <= b
MIn(m, b) == \A i \in DOMAIN m : VIn(m[i], b)
RECURSIVE Euler(_, _, _, _)
Euler(o, t, x, p) ==
  IF t >= o.tau THEN (IF VIn(x, 300000) /\ MIn(p, 300000) THEN <<x, p>> ELSE <<>>)
  ELSE IF ~(VIn(x, 60) /\ MIn(p, 1000)) THEN <<>>
  ELSE LET h == IF o.dt = 0 \/ t + o.dt > o.tau THEN o.tau - t ELSE o.dt
           dx == VScale(h, Dyn(o, t, x))
       IN IF VIn(dx, 200) /\ MIn(ErrDyn(o, t, x), 5000) THEN Euler(o, t + h, Mul(C.g, x, dx), CovStep(o, t, x, p, h)) ELSE <<>>

(* Runge-Kutta: the linear system with A = [0 a; 0 0] is integrated exactly.   *)
(* Six times the solution.                                                      *)
RkState(o, x) == LET h == o.tau  a == o.A[1][2]
                     x2 == 6 * x[2] + 6 * h * o.c[2] + 3 * h * h * o.b[2]
                 IN <<6 * x[1] + 6 * h * o.c[1] + 3 * h * h * o.b[1] + a * (6 * h * x[2] + 3 * h * h * o.c[2] + h * h * h * o.b[2]), x2>>
RkCov(o, p) ==
  LET h == o.tau  A == o.A  Q == Upper(o.Q)  M == MatAdd(MatId(2), MatScale(h, A))
  IN MatAdd(MatScale(6, MatMul(MatMul(M, p), MatT(M))),
       MatAdd(MatScale(6 * h, Q), MatAdd(MatScale(3 * h * h, MatAdd(MatMul(A, Q), MatMul(Q, MatT(A)))), MatScale(2 * h * h * h, MatMul(MatMul(A, Q), MatT(A))))))

NearV(rec, v, den, tol) == \A i \in DOMAIN v : Abs(rec[i] * den - v[i] * S) <= tol * den
NearM(rec, m, den, tol) == \A i \in DOMAIN m : NearV(rec[i], m[i], den, tol)

(* update: d = det S, adj = adjugate of S *)
Rows(m, n) == SubSeq(m, 1, n)
UpH(o) == MatMul(Rows(o.H, o.ny), DrInv(C.g, g))
UpRes(o) == [j \in 1..o.ny |-> o.y[j] - (VDot(o.H[j], g) + o.h0[j])]
UpS(o) == LET H == UpH(o)  s == MatMul(MatMul(H, P), MatT(H)) IN [a \in 1..o.ny |-> [b \in 1..o.ny |-> s[a][b] + (IF b < a THEN o.R[b][a] ELSE o.R[a][b])]]
Det(s) == IF Len(s) = 1 THEN s[1][1] ELSE s[1][1] * s[2][2] - s[1][2] * s[2][1]
Adj(s) == IF Len(s) = 1 THEN <<<<1>>>> ELSE <<<<s[2][2], -s[1][2]>>, <<-s[2][1], s[1][1]>>>>
JudgeUpdate(o, r) ==
  LET s == UpS(o)  d == Det(s)
      PHt == MatMul(P, MatT(UpH(o)))
      G == MatMul(PHt, Adj(s))
      w == MatVec(G, UpRes(o))
      dg == VAdd(VScale(d, g), VAdd(w, DivExact(Bracket(C.g, g, w), 2)))
      dP == MatAdd(MatScale(d, P), MatScale(-1, MatMul(G, MatT(PHt))))
  IN Rule("estimate moves by the Kalman gain times the residual", NearV(r.g, dg, d, 2)) \o
     Rule("covariance is (I - K H) P", NearM(r.P, dP, d, 2))
\* the determinant and products must stay within 32 bits
Small(o) == /\ C.g # "F"  \* the product of the filiform group is not linear in the step
            /\ \A a \in 1..N : g[a] \in -3..3 /\ \A b \in 1..N : P[a][b] \in -6..6
            /\ LET s == UpS(o) IN Det(s) \in 1..2999 /\ s[1][1] > 0   \* an Euler step can lose positivity

Judge(o, r, e) ==
  Rule("covariance is symmetric after " \o o.o, \A a \in 1..N, b \in 1..N : r.P[a][b] = r.P[b][a]) \o
  Rule(o.o \o " depends on estimate and covariance only", r.eq = 1) \o
  (CASE o.o = "reset" -> Rule("reset sets estimate and covariance", NearV(r.g, o.x, 1, 0) /\ NearM(r.P, o.P, 1, 0))
     [] o.o = "predict" /\ exact /\ C.rk = 1 ->
          Rule("prediction covers the interval", NearV(r.g, RkState(o, g), 6, 2)) \o Rule("predicted covariance covers the interval", NearM(r.P, RkCov(o, P), 6, 2))
     [] o.o = "predict" /\ exact /\ e # <<>> ->
          Rule("prediction covers the interval", NearV(r.g, e[1], 1, 2)) \o Rule("predicted covariance covers the interval", NearM(r.P, e[2], 1, 2))
     [] o.o = "update" /\ exact /\ Small(o) -> JudgeUpdate(o, r)
     [] OTHER -> <<>>)

Init == /\ idx \in 1..Len(Cases) /\ k = 1 /\ exact = TRUE /\ why = <<>>
        /\ g = VZero(LDim(Cases[idx].g)) /\ P = MatId(LDim(Cases[idx].g))
Oper == /\ T.ev = "ok" /\ k >= 1 /\ k <= Len(C.ops) /\ why = <<>>
        /\ LET o == C.ops[k]
               e == IF o.o = "predict" /\ exact /\ C.rk = 0 THEN TLCEval(Euler(o, 0, g, P)) ELSE <<>>
           IN /\ why' = Judge(o, T.res[k], e)
              /\ g' = (IF o.o = "reset" THEN o.x ELSE IF e # <<>> THEN e[1] ELSE g)
              /\ P' = (IF o.o = "reset" THEN o.P ELSE IF e # <<>> THEN e[2] ELSE P)
              /\ exact' = (o.o = "reset" \/ e # <<>>)
        /\ k' = k + 1 /\ UNCHANGED idx
NoAnswer == /\ k = 1 /\ T.ev \in {"crash", "hang"}
            /\ why' = <<"every operation returns (no " \o T.ev \o ")">> /\ k' = -1 /\ UNCHANGED <<idx, g, P, exact>>
Next == Oper \/ NoAnswer
Spec == Init /\ [][Next]_vars
Conforms == why = <<>>
WellFormed == Len(Trace) = Len(Cases) /\ T.id = C.id
=============================================================================
