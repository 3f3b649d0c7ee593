------------------------------ MODULE AsifTrace ------------------------------
(* Active set invariance: the quadratic program is a function of the problem   *)
(* (linearised barrier conditions at the K instants k tau along the backup     *)
(* trajectory integrated in Euler steps of at most dt); the filter returns its *)
(* minimiser at every call of every history.                                   *)
EXTENDS LieModel, Json, IOUtils, TLC
CONSTANT Prop
Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
VARIABLES idx, k, why
vars == <<idx, k, why>>
C == Cases[idx]
T == Trace[idx]
N == LDim(C.g)
M == LDim(C.gu)
Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>
Abs(x) == IF x < 0 THEN -x ELSE x
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Inf == 99999
S == 200     \* fixed point scale of problem data
FInf == 2000000000
VIn(v, b) == \A i \in DOMAIN v : Abs(v[i]) <= b
MIn(m, b) == \A i \in DOMAIN m : VIn(m[i], b)

\* ------------------------------------------------------------ closed loop
Bu(d, t, x) == VAdd(MatVec(d.Kb, x), VAdd(VScale(t, d.kt), d.k0))
Dyn(d, x, lu) == VAdd(VAdd(MatVec(d.A, x), MatVec(d.B, lu)), VAdd(d.c, VScale(d.q * x[1] * x[1], Unit(N, N))))
\* derivative of the closed loop with respect to the coordinates of x (exp(log u) is read back through log)
DynX(d, x) == TLCEval([a \in 1..N |-> TLCEval([b \in 1..N |->
    (d.A[a][b] + VDot(d.B[a], [j \in 1..M |-> d.Kb[j][b]])) + (IF a = N /\ b = 1 THEN 2 * d.q * x[1] ELSE 0)])])
ErrDyn(d, t, x) == MatAdd(MatScale(-1, AdMat(C.g, Dyn(d, x, Bu(d, t, x)))), MatMul(DynX(d, x), DrInv(C.g, x)))
HVal(d, t, x) == TLCEval([j \in 1..C.nh |-> VDot(d.H[j], x) + t * d.ha[j] + t * t * d.hb[j] + d.he[j] * x[1] * x[1] + d.h0[j]])
HdT(d, t) == TLCEval([j \in 1..C.nh |-> d.ha[j] + 2 * t * d.hb[j]])
HdX(d, x) == MatMul([j \in 1..C.nh |-> [b \in 1..N |-> d.H[j][b] + (IF b = 1 THEN 2 * d.he[j] * x[1] ELSE 0)]], DrInv(C.g, x))

\* barrier rows of instants from..K-1; <<>> for those out of exact range
Row(d, t, x, se) ==
  LET g == MatMul(HdX(d, x), se)
      f0 == Dyn(d, d.x, d.ud)
      du == MatMul(d.B, DrInv(C.gu, d.ud))
      Am == MatMul(g, du)
      gf == MatVec(g, f0)  hv == HVal(d, t, x)  ht == HdT(d, t)
  IN [A |-> Am, l |-> TLCEval([j \in 1..C.nh |-> -ht[j] - d.al * hv[j] - gf[j]])]
RECURSIVE Rows(_, _, _, _, _)
Rows(d, r, t, x, se) ==
  IF ~(VIn(x, 150) /\ MIn(se, 150)) THEN <<>>
  ELSE IF t = r * d.tau THEN
    IF r = C.K THEN <<>> ELSE <<Row(d, t, x, se)>> \o (IF r = C.K - 1 THEN <<>> ELSE LET h == Mn(d.dt, d.tau) IN
         LET dx == VScale(h, Dyn(d, x, Bu(d, t, x)))  E == ErrDyn(d, t, x) IN
         IF VIn(dx, 300) /\ MIn(E, 3000) THEN Rows(d, r + 1, t + h, Mul(C.g, x, dx), MatAdd(se, MatScale(h, MatMul(E, se)))) ELSE <<>>)
  ELSE LET h == Mn(d.dt, r * d.tau - t)
           dx == VScale(h, Dyn(d, x, Bu(d, t, x)))  E == ErrDyn(d, t, x) IN
       IF VIn(dx, 300) /\ MIn(E, 3000) THEN Rows(d, r, t + h, Mul(C.g, x, dx), MatAdd(se, MatScale(h, MatMul(E, se)))) ELSE <<>>
AllRows(d) == TLCEval(Rows(d, 0, 0, d.x, MatId(N)))

\* ------------------------------------------------------------ quadratic program
Close(r, v) == Abs(r - S * v) <= 2 + Abs(v) \div 500
Bnd(r, v, off) == IF v = Inf THEN r = FInf ELSE IF v = -Inf THEN r = -FInf ELSE Abs(r - S * (v - off)) <= 1
Off(d, j) == VDot(d.uA[j], Minus(C.gu, d.ud, d.uc))
NR == C.K * C.nh + C.ni + 1
JudgeQP(d, r) ==
  LET rows == AllRows(d) IN
  IF Len(r.A) # NR \/ Len(r.P) # M + 1 THEN <<"sizes of the quadratic program">>
  ELSE Rule("cost weights deviation and relaxation",
            /\ \A a \in 1..M : \A b \in 1..M : r.P[a][b] = (IF a = b THEN S * d.W[a] ELSE 0)
            /\ r.P[M + 1][M + 1] = S * d.rc
            /\ \A a \in 1..M : r.P[a][M + 1] = 0 /\ r.P[M + 1][a] = 0
            /\ \A a \in 1..(M + 1) : r.q[a] = 0) \o
       Rule("one barrier row per component and instant: coefficients", \A i \in 1..Len(rows), j \in 1..C.nh, b \in 1..M : Close(r.A[(i - 1) * C.nh + j][b], rows[i].A[j][b])) \o
       Rule("one barrier row per component and instant: bounds", \A i \in 1..Len(rows), j \in 1..C.nh : Close(r.l[(i - 1) * C.nh + j], rows[i].l[j])) \o
       Rule("barrier rows have no upper bound", \A i \in 1..C.K * C.nh : r.u[i] = FInf) \o
       Rule("barrier rows are relaxed", \A i \in 1..C.K * C.nh : r.rel[i] = S) \o
       Rule("input bound rows", \A j \in 1..C.ni : LET i == C.K * C.nh + j IN
            /\ \A b \in 1..M : r.A[i][b] = S * d.uA[j][b]
            /\ r.rel[i] = 0
            /\ Bnd(r.l[i], d.ul[j], Off(d, j))
            /\ Bnd(r.u[i], d.uu[j], Off(d, j))) \o
       Rule("relaxation is nonnegative", r.rel[NR] = S /\ r.l[NR] = 0 /\ r.u[NR] = FInf /\ \A b \in 1..M : r.A[NR][b] = 0) \o
       Rule("requested differentiation method is used", r.dt = 1)

\* ------------------------------------------------------------ filter
Q == 200    \* fixed point scale of inputs
\* relaxation needed at deviation m (scaled by Q)
Del(rows, m) == LET vals == {0} \cup UNION {{Q * rows[i].l[j] - VDot(rows[i].A[j], m) : j \in 1..C.nh} : i \in 1..Len(rows)}
                IN CHOOSE v \in vals : \A w \in vals : w <= v
\* cost at m + e minus cost at m (both scaled by Q^2)
Incr(d, rows, m, e) ==
  LET d0 == Del(rows, m)  d1 == Del(rows, VAdd(m, e)) IN
  VDot([a \in 1..M |-> d.W[a] * e[a]], [a \in 1..M |-> 2 * m[a] + e[a]]) + d.rc * (d1 - d0) * (d1 + d0)
InBox(d, m, tol) == \A j \in 1..C.ni :
  LET v == VDot(d.uA[j], m) IN
  /\ (d.ul[j] = -Inf) \/ (v >= Q * (d.ul[j] - Off(d, j)) - tol)
  /\ (d.uu[j] = Inf) \/ (v <= Q * (d.uu[j] - Off(d, j)) + tol)
Modest(rows, d) == /\ Len(rows) = C.K /\ \A i \in 1..Len(rows) : VIn(rows[i].l, 60) /\ MIn(rows[i].A, 12)
Sane(rows) == Len(rows) = C.K /\ \A i \in 1..Len(rows) : VIn(rows[i].l, 3000) /\ MIn(rows[i].A, 300)  \* solver tolerances are relative
Steps == IF M = 1 THEN {<<1>>, <<-1>>} ELSE {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<1, 1>>, <<1, -1>>, <<-1, 1>>, <<-1, -1>>}
\* at most: change of the cost within one unit of m
Lip(d, rows, m) == VDot([a \in 1..M |-> 2 * d.W[a]], [a \in 1..M |-> Abs(m[a]) + 1]) + 2 * d.rc * (Del(rows, m) + 30) * 25
JudgeFilter(d, r) ==
  LET rows == AllRows(d)
      m == r.mu
      z == VZero(M)
      solved == r.code \in {0, 1}
  IN Rule("a modest problem is solved", ~Modest(rows, d) \/ solved) \o
     Rule("answer is that of a fresh filter", ~Sane(rows) \/ r.eq = 1) \o
     (IF ~solved THEN <<>> ELSE
       Rule("input respects its bounds", ~Sane(rows) \/ InBox(d, m, 3)) \o
       (IF ~Modest(rows, d) THEN <<>>
        ELSE Rule("a desired input that satisfies all constraints is returned unchanged", ~(InBox(d, z, 0) /\ Del(rows, z) = 0) \/ VIn(m, 2)) \o
             (IF ~VIn(m, 70 * Q) \/ (InBox(d, z, 0) /\ Del(rows, m) > Del(rows, z) + 100) THEN <<"input is the closest one">>
              ELSE IF Del(rows, m) > 150 * Q THEN <<>>   \* out of exact range
              ELSE
              IF M = 1 THEN Rule("input is the closest one", \A e \in Steps : LET e3 == VScale(3, e) IN
                                 ~InBox(d, VAdd(m, VScale(5, e)), 0) \/ Incr(d, rows, VAdd(m, e3), VScale(2, e)) >= 0)
              ELSE Rule("input is the closest one", \A e \in Steps, c \in {10, 60} : LET f == VScale(c, e) IN
                                 ~InBox(d, VAdd(m, f), 0) \/ Incr(d, rows, m, f) >= -2 * Lip(d, rows, m)))))

Init == idx \in 1..Len(Cases) /\ k = 1 /\ why = <<>>
Oper == /\ T.ev = "ok" /\ k >= 1 /\ k <= Len(C.ops) /\ why = <<>>
        /\ why' = (LET o == C.ops[k] IN IF o.o = "filter" THEN JudgeFilter(o.d, T.res[k]) ELSE JudgeQP(o.d, T.res[k]))
        /\ k' = k + 1 /\ UNCHANGED idx
NoAnswer == /\ k = 1 /\ T.ev \in {"crash", "hang"}
            /\ why' = <<"every operation returns (no " \o T.ev \o ")">> /\ k' = -1 /\ UNCHANGED idx
Next == Oper \/ NoAnswer
Spec == Init /\ [][Next]_vars
Conforms == why = <<>>
WellFormed == Len(Trace) = Len(Cases) /\ T.id = C.id
=============================================================================
