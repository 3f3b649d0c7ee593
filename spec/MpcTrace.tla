------------------------------ MODULE MpcTrace ------------------------------
(* Each controller is its current references, weights and nothing else: the    *)
(* answer of a call is the minimiser of the linearised horizon problem (Euler  *)
(* steps of length h or intervals with two Radau points) for the controller's current settings.  Optimality is    *)
(* decided by the derivative of the cost along every feasible direction: a     *)
(* change of one component of w_i = cr(x_i, u_i) (or of a free input) with all *)
(* the others kept.  Numbers of the trace are multiples of 1/S.                *)
EXTENDS LieModel, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
S == 1000
VARIABLES idx, k, ctl, why
vars == <<idx, k, ctl, why>>
C == Cases[idx]
Tr == Trace[idx]
Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
RECURSIVE MaxAbs(_, _)
MaxAbs(s, n) == IF n = 0 THEN 0 ELSE LET m == MaxAbs(s, n - 1) IN IF Abs(s[n]) > m THEN Abs(s[n]) ELSE m
Force(s) == TLCEval([i \in DOMAIN s |-> s[i]])
\* intervals of one (Euler) or two Radau points (at 0 and 2/3 of an interval of length 3 h)
NI == (C.K + C.km - 1) \div C.km
N == NI * C.km
Time(i) == IF C.km = 1 THEN (i - 1) * C.h ELSE ((i - 1) \div 2) * 3 * C.h + (IF i % 2 = 0 THEN 2 * C.h ELSE 0)
Grp == IF C.g = "H" THEN "H" ELSE "R2"

Val(f, z) == f.c + VDot(f.l, z) + SumTo([a \in DOMAIN z |-> z[a] * VDot(f.q[a], z)], Len(z))
Grad(f, z) == [a \in DOMAIN z |-> f.l[a] + VDot(f.q[a], z) + SumTo([b \in DOMAIN z |-> f.q[b][a] * z[b]], Len(z))]
\* with respect to the tangent of the state
GradT(f, z) ==
  LET g == Force(Grad(f, z)) IN
  IF C.g = "R" THEN g
  ELSE TLCEval([a \in DOMAIN z |-> IF a \in 2..4 THEN LET col == DrInvCol("H", SubSeq(z, 2, 4), a - 1) IN SumTo([b \in 1..3 |-> g[1 + b] * col[b]], 3) ELSE g[a]])

\* references
XAt(c, t) == TLCEval(CASE c.xd.kind = "none" -> [j \in 1..C.nx |-> 0]
               [] c.xd.kind = "table" -> [j \in 1..C.nx |-> ((c.xd.tr[j].a + c.xd.tr[j].b * t) % 5) - 2]
               [] OTHER -> Mul(Grp, c.xd.tr.a, VScale(t - c.xd.tr.t0, c.xd.tr.b)))
DXAt(c, t) == TLCEval(CASE c.xd.kind = "none" -> [j \in 1..C.nx |-> 0]
               [] c.xd.kind = "table" -> [j \in 1..C.nx |-> ((c.xd.tr[j].da + c.xd.tr[j].db * t) % 5) - 2]
               [] OTHER -> c.xd.tr.b)
UAt(c, t) == TLCEval(CASE c.ud.kind = "none" -> [j \in 1..C.nu |-> 0]
               [] c.ud.kind = "table" -> [j \in 1..C.nu |-> ((c.ud.tr[j].a + c.ud.tr[j].b * t) % 5) - 2]
               [] OTHER -> VAdd(c.ud.tr.a, VScale(t - c.ud.tr.t0, c.ud.tr.b)))
Diag(n) == [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN 1 ELSE 0]]
Fresh == [alive |-> TRUE, xd |-> [kind |-> "none"], ud |-> [kind |-> "none"], w |-> [Q |-> Diag(C.nx), R |-> Diag(C.nu), Qtf |-> Diag(C.nx)]]
Dead == [alive |-> FALSE]

\* S times the deviation from x (integers) to y (multiples of 1/S)
Dev(x, y) == LET b == IF C.g = "R" THEN VZero(C.nx) ELSE Bracket("H", x, y) IN TLCEval([j \in 1..C.nx |-> y[j] - S * x[j] - b[j] \div 2])
Slack == 3
\* the last tolerance is that of the solver and of rounding
JudgeCall(c, o, r) ==
  LET tm == TLCEval([i \in 1..(N + 1) |-> o.t + Time(i)])
      xd == TLCEval([i \in 1..(N + 1) |-> XAt(c, tm[i])])
      ud == TLCEval([i \in 1..N |-> UAt(c, tm[i])])
      dx == TLCEval([i \in 1..N |-> DXAt(c, tm[i])])
      z == TLCEval([i \in 1..N |-> Force((<<IF C.tv = 1 THEN tm[i] ELSE 0>> \o xd[i]) \o ud[i])])
      fv == TLCEval([i \in 1..N |-> Force([j \in 1..C.nx |-> Val(C.f[j], z[i])])])
      gf == TLCEval([i \in 1..N |-> TLCEval([j \in 1..C.nx |-> GradT(C.f[j], z[i])])])
      gc == TLCEval([i \in 1..N |-> TLCEval([j \in 1..C.ncr |-> GradT(C.cr[j], z[i])])])
      cv == TLCEval([i \in 1..N |-> Force([j \in 1..C.ncr |-> Val(C.cr[j], z[i])])])
      ad == TLCEval([i \in 1..N |-> IF C.g = "R" THEN [a \in 1..C.nx |-> VZero(C.nx)] ELSE AdMat("H", VAdd(fv[i], dx[i]))])
      \* one point: e_i+1 = A_i e_i + B_i v_i + c_i; two points: A_i e_i + B_i v_i + c_i = h e'(t_i).  Brackets of the group are even
      A == TLCEval([i \in 1..N |-> TLCEval([a \in 1..C.nx |-> TLCEval([b \in 1..C.nx |-> (IF a = b /\ C.km = 1 THEN 1 ELSE 0) + C.h * gf[i][a][1 + b] - (C.h * ad[i][a][b]) \div 2])])])
      B == TLCEval([i \in 1..N |-> TLCEval([a \in 1..C.nx |-> TLCEval([b \in 1..C.nu |-> C.h * gf[i][a][1 + C.nx + b]])])])
      ct == TLCEval([i \in 1..N |-> Force([a \in 1..C.nx |-> C.h * (fv[i][a] - dx[i][a])])])
      e == TLCEval([i \in 1..(N + 1) |-> Dev(xd[i], r.x[i])])
      v == TLCEval([i \in 1..N |-> TLCEval([j \in 1..C.nu |-> r.u[i][j] - S * ud[i][j]])])
      \* initial deviation: linearised log(x^-1 xd exp(e_1)) = 0
      m0 == Minus(Grp, xd[1], o.x)
      ini == [a \in 1..C.nx |-> S * m0[a] + SumTo([b \in 1..C.nx |-> (IF C.g = "R" THEN (IF a = b THEN 1 ELSE 0) ELSE DrInvCol("H", m0, b)[a]) * e[1][b]], C.nx)]
      nrm(m) == SumTo([a \in DOMAIN m |-> Abs(m[a])], Len(m))
      tolE(i, a) == Slack + nrm(A[i][a]) + nrm(B[i][a])
      \* alpha is +-1: v_j = alpha (w_j - beta e) for constrained inputs
      al(i, j) == IF j <= C.ncr THEN gc[i][j][1 + C.nx + j] ELSE 1
      be(i, j, b) == IF j <= C.ncr THEN gc[i][j][1 + b] ELSE 0
      \* change of u_m when w_i[j] changes by one and x_m by d
      Du(i, j, m, d) == TLCEval([q \in 1..C.nu |-> (IF m = i /\ q = j THEN al(m, q) ELSE 0) - al(m, q) * SumTo([b \in 1..C.nx |-> be(m, q, b) * d[b]], C.nx)])
      RECURSIVE Walk(_, _, _, _, _)
      \* derivative of the cost and sum of the absolute coefficients from step m on
      Walk(i, j, m, d, acc) ==
        IF acc.big \/ MaxAbs(d, C.nx) > 60 \/ MaxAbs(e[m], C.nx) > 20000 THEN [acc EXCEPT !.big = TRUE]
        ELSE IF m = N + 1 THEN
          LET Qd == MatVec(c.w.Qtf, d) IN [dj |-> acc.dj + VDot(Qd, e[m]), cf |-> acc.cf + nrm(Qd), big |-> FALSE]
        ELSE
          LET du == Du(i, j, m, d)
              Qd == MatVec(c.w.Q, d)
              Rd == MatVec(c.w.R, du)
              nx == VAdd(MatVec(A[m], d), MatVec(B[m], du))
          IN Walk(i, j, m + 1, nx, [dj |-> acc.dj + C.h * (VDot(Qd, e[m]) + VDot(Rd, v[m])), cf |-> acc.cf + C.h * (nrm(Qd) + nrm(Rd)), big |-> MaxAbs(du, C.nu) > 60 \/ MaxAbs(v[m], C.nu) > 20000])
      RECURSIVE Walk2(_, _, _, _, _, _)
      \* the same over intervals I.. of two points; d, and the unit s of the change, times a power of four
      Walk2(i, j, I, s, d, acc) ==
        LET p == 2 * I - 1 IN
        IF acc.big \/ MaxAbs(d, C.nx) > 200 THEN [acc EXCEPT !.big = TRUE]
        ELSE IF I = NI + 1 THEN
          IF MaxAbs(e[p], C.nx) > 8000 THEN [acc EXCEPT !.big = TRUE]
          ELSE LET Qd == VScale(4, MatVec(c.w.Qtf, d)) IN [dj |-> acc.dj + VDot(Qd, e[p]), cf |-> acc.cf + nrm(Qd), big |-> FALSE]
        ELSE
          LET u0 == TLCEval([q \in 1..C.nu |-> IF p = i /\ q = j THEN s * al(p, q) ELSE 0])
              u1 == TLCEval([q \in 1..C.nu |-> IF p + 1 = i /\ q = j THEN s * al(p + 1, q) ELSE 0])
              f0 == VAdd(MatVec(A[p], d), MatVec(B[p], u0))
              g1 == MatVec(B[p + 1], u1)
              rh == VAdd(d, VAdd(f0, g1))
              Ar == MatVec(A[p + 1], rh)
              d1 == VAdd(rh, VAdd(Ar, MatVec(A[p + 1], Ar)))  \* (I - A) d1 = r as A is nilpotent
              f1 == VAdd(MatVec(A[p + 1], d1), g1)
              d2 == VAdd(d, VAdd(VScale(3, d1), VScale(6, f1)))
              q0 == VScale(3 * C.h, MatVec(c.w.Q, d))
              r0 == VScale(3 * C.h, MatVec(c.w.R, u0))
              q1 == VScale(9 * C.h, MatVec(c.w.Q, d1))
              r1 == VScale(9 * C.h, MatVec(c.w.R, u1))
              odd == VSub(rh, VSub(d1, MatVec(A[p + 1], d1))) # VZero(C.nx) \/ \E b \in 1..C.nx : d2[b] % 4 # 0
          IN IF odd \/ MaxAbs(d1, C.nx) > 200 \/ MaxAbs(e[p], C.nx) > 8000 \/ MaxAbs(e[p + 1], C.nx) > 8000 \/ MaxAbs(v[p], C.nu) > 8000 \/ MaxAbs(v[p + 1], C.nu) > 8000
             THEN [acc EXCEPT !.big = TRUE]
             ELSE Walk2(i, j, I + 1, s \div 4, TLCEval([b \in 1..C.nx |-> d2[b] \div 4]),
                        [dj |-> acc.dj + VDot(q0, e[p]) + VDot(r0, v[p]) + VDot(q1, e[p + 1]) + VDot(r1, v[p + 1]), cf |-> acc.cf + nrm(q0) + nrm(r0) + nrm(q1) + nrm(r1), big |-> FALSE])
      First(i) == (i + 1) \div 2
      None == [dj |-> 0, cf |-> 0, big |-> FALSE]
      D == TLCEval([i \in 1..N |-> TLCEval([j \in 1..C.nu |-> IF C.km = 2 THEN Walk2(i, j, First(i), 4^(NI - First(i) + 1), VZero(C.nx), None) ELSE Walk(i, j, i, VZero(C.nx), None)])])
      \* S times the value of a running constraint
      W(i, j) == S * cv[i][j] + SumTo([b \in 1..C.nx |-> gc[i][j][1 + b] * e[i][b]], C.nx) + SumTo([b \in 1..C.nu |-> gc[i][j][1 + C.nx + b] * v[i][b]], C.nu)
      tolW(i, j) == Slack + nrm(gc[i][j])
      atL(i, j) == j <= C.ncr /\ C.crl[j] > -99 /\ W(i, j) <= S * C.crl[j] + 4 * tolW(i, j)
      atU(i, j) == j <= C.ncr /\ C.cru[j] < 99 /\ W(i, j) >= S * C.cru[j] - 4 * tolW(i, j)
      tolD(i, j) == Slack * (1 + D[i][j].cf)
      \* the solver's relative tolerance makes no statement about large trajectories
      large == (\E i \in 1..(N + 1) : MaxAbs(e[i], C.nx) > 8000 \/ MaxAbs(r.x[i], C.nx) > 12000 \/ MaxAbs(xd[i], C.nx) > 12) \/ (\E i \in 1..N : MaxAbs(v[i], C.nu) > 8000)
  IN IF Len(r.u) # N \/ Len(r.x) # N + 1 THEN <<"sizes of the returned trajectories">>
     ELSE IF r.code = "limit" THEN <<>> \* the solver gave up
     ELSE Rule("the horizon problem is solved", r.code \in {"Optimal", "PolishFailed"}) \o
          Rule("returned input is the first of the trajectory", \A j \in 1..C.nu : Abs(r.u0[j] - r.u[1][j]) <= 1) \o
          Rule("initial state", \A a \in 1..C.nx : Abs(ini[a]) <= Slack + 4 * (1 + MaxAbs(m0, C.nx))) \o
          Rule("dynamics", large \/ \A i \in 1..N : \A a \in 1..C.nx :
                 LET f == VDot(A[i][a], e[i]) + VDot(B[i][a], v[i]) + S * ct[i][a] IN
                 IF C.km = 1 THEN Abs(e[i + 1][a] - f) <= tolE(i, a)
                 ELSE IF i % 2 = 1 THEN Abs(-5 * e[i][a] + 9 * e[i + 1][a] - 4 * e[i + 2][a] - 6 * f) <= 6 * tolE(i, a) + 18
                 ELSE Abs(-e[i - 1][a] - 3 * e[i][a] + 4 * e[i + 1][a] - 6 * f) <= 6 * tolE(i, a) + 8) \o
          Rule("running constraints", large \/ \A i \in 1..N : \A j \in 1..C.ncr : (C.crl[j] = -99 \/ W(i, j) >= S * C.crl[j] - tolW(i, j)) /\ (C.cru[j] = 99 \/ W(i, j) <= S * C.cru[j] + tolW(i, j))) \o
          Rule("cost is minimal", large \/ \A i \in 1..N : \A j \in 1..C.nu : D[i][j].big \/
                 ((D[i][j].dj >= -tolD(i, j) \/ atU(i, j)) /\ (D[i][j].dj <= tolD(i, j) \/ atL(i, j)))) \o
          Rule("numbers are finite", r.fin = 1)

Init == idx \in 1..Len(Cases) /\ k = 0 /\ ctl = <<>> /\ why = <<>>
Start == k = 0 /\ Tr.ev = "ok" /\ k' = 1 /\ ctl' = <<Fresh, Dead, Dead>> /\ UNCHANGED <<idx, why>>
O == C.ops[k]
Live(a) == ctl[a].alive
\* operations on a controller that does not exist are skipped by the driver as well
After == CASE ~Live(O.c) -> ctl
           [] O.op = "copy" -> [ctl EXCEPT ![O.d] = ctl[O.c]]
           [] O.op = "move" -> IF O.c = O.d THEN ctl ELSE [ctl EXCEPT ![O.d] = ctl[O.c], ![O.c] = Dead]
           [] O.op = "xdes" -> [ctl EXCEPT ![O.c].xd = [kind |-> "table", tr |-> O.traj]]
           [] O.op = "xrel" -> [ctl EXCEPT ![O.c].xd = [kind |-> "lin", tr |-> O.lin]]
           [] O.op = "udes" -> [ctl EXCEPT ![O.c].ud = [kind |-> "table", tr |-> O.traj]]
           [] O.op = "urel" -> [ctl EXCEPT ![O.c].ud = [kind |-> "lin", tr |-> O.lin]]
           [] O.op = "w" -> [ctl EXCEPT ![O.c].w = O.w[1]]
           [] OTHER -> ctl
Oper == /\ k >= 1 /\ k <= Len(C.ops) /\ why = <<>>
        /\ why' = IF O.op = "call" /\ Live(O.c) THEN JudgeCall(ctl[O.c], O, Tr.res[k]) ELSE <<>>
        /\ ctl' = After /\ k' = k + 1 /\ UNCHANGED idx
NoAnswer == /\ k = 0 /\ Tr.ev \in {"crash", "hang"}
            /\ why' = <<"every call returns (no " \o Tr.ev \o ")">> /\ k' = -1 /\ UNCHANGED <<idx, ctl>>
Next == Start \/ Oper \/ NoAnswer
Spec == Init /\ [][Next]_vars
Conforms == why = <<>>
WellFormed == Len(Trace) = Len(Cases) /\ Tr.id = C.id
=============================================================================
