----------------------------- MODULE OcpQpTrace -----------------------------
(* The quadratic program of an optimal control problem linearised around a     *)
(* trajectory.  Variables: deviations [x_0 .. x_N, u_0 .. u_N-1].  Cost times  *)
(* 4 U and constraints times 72 are integers.  Storage that is updated must    *)
(* hold the same program as freshly built storage: the answer below only       *)
(* depends on the current operation.                                           *)
EXTENDS LieModel, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
VARIABLES idx, k, why
vars == <<idx, k, why>>
C == Cases[idx]
Tr == Trace[idx]
Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Force(s) == TLCEval([i \in DOMAIN s |-> s[i]])

M == C.mesh
U == SumTo(M.len, Len(M.len))
RECURSIVE NodesFrom(_, _, _, _)
NodesFrom(m, sc, i, start) ==
  IF i > Len(m.k) THEN <<>>
  ELSE (IF m.k[i] = 1 THEN <<[iv |-> i, j |-> 1, dt |-> 3 * sc * start, wn |-> 4 * m.len[i]]>>
        ELSE <<[iv |-> i, j |-> 1, dt |-> 3 * sc * start, wn |-> m.len[i]], [iv |-> i, j |-> 2, dt |-> 3 * sc * start + 2 * sc * m.len[i], wn |-> 3 * m.len[i]]>>)
       \o NodesFrom(m, sc, i + 1, start + m.len[i])
First(m, i) == 1 + SumTo(m.k, i - 1)
Dif(kk, s, j) == IF kk = 1 THEN (IF s = 0 THEN 8 ELSE -8) ELSE IF j = 1 THEN <<5, -9, 4>>[s + 1] ELSE <<3, 9, -12>>[s + 1]
N == SumTo(M.k, Len(M.k))
nv == C.nx * (N + 1) + C.nu * N
nc == C.nx * N + C.ncr * N + C.nce
Grp == IF C.g = "H" THEN "H" ELSE "R2"

Val(f, z) == f.c + VDot(f.l, z) + SumTo([a \in DOMAIN z |-> z[a] * VDot(f.q[a], z)], Len(z))
Grad(f, z) == [a \in DOMAIN z |-> f.l[a] + VDot(f.q[a], z) + SumTo([b \in DOMAIN z |-> f.q[b][a] * z[b]], Len(z))]
Hess(f, a, b) == f.q[a][b] + f.q[b][a]
\* gradient in the tangent space; the group elements start at the positions ps
GradT(f, z, ps) ==
  LET g == Force(Grad(f, z)) IN
  IF C.g = "R" THEN g
  ELSE TLCEval([a \in DOMAIN z |-> IF \E p \in ps : a \in p..(p + 2)
         THEN LET p == CHOOSE p \in ps : a \in p..(p + 2)  col == DrInvCol("H", SubSeq(z, p, p + 2), a - p + 1) IN SumTo([b \in 1..3 |-> g[p + b - 1] * col[b]], 3)
         ELSE g[a]])

At(tr, t) == TLCEval([j \in DOMAIN tr |-> IF C.form = 2 THEN tr[j].a + tr[j].b * t ELSE ((tr[j].a + tr[j].b * t) % 5) - 2])
DAt(tr, t) == TLCEval([j \in DOMAIN tr |-> IF C.form = 2 THEN tr[j].b ELSE ((tr[j].da + tr[j].db * t) % 5) - 2])

VarOf(c) ==
  IF c <= C.nx * (N + 1)
    THEN LET e == c - 1  nd == e \div C.nx + 1  a == e % C.nx IN
         <<"x", nd, 2 + a, (IF nd = 1 THEN {2 + a} ELSE {}) \union (IF nd = N + 1 THEN {2 + C.nx + a} ELSE {})>>
  ELSE LET e == c - 1 - C.nx * (N + 1) IN <<"u", e \div C.nu + 1, 2 + C.nx + (e % C.nu), {}>>
RowOf(r) ==
  IF r <= C.nx * N THEN <<"dyn", (r - 1) \div C.nx + 1, ((r - 1) % C.nx) + 1>>
  ELSE IF r <= C.nx * N + C.ncr * N THEN LET e == r - C.nx * N - 1 IN <<"cr", e \div C.ncr + 1, (e % C.ncr) + 1>>
  ELSE <<"ce", 0, r - C.nx * N - C.ncr * N>>
Inf == 999999

\* trajectories of a solution at integer times, times E
Start(i, sc) == 3 * sc * SumTo(M.len, i - 1)
Interp(v, t, sc, ext) ==
  LET i == CHOOSE i \in DOMAIN M.k : Start(i, sc) <= t /\ t <= Start(i, sc) + 3 * sc * M.len[i]
      h == 3 * sc * M.len[i]
      p == t - Start(i, sc)
      a == First(M, i)
      u == (162 * sc * sc) \div (2 * h * h)
      last == i = Len(M.k) /\ ~ext
      W(j) == IF M.k[i] = 1 THEN (IF last THEN 2 * h * h ELSE IF j = 0 THEN 2 * h * (h - p) ELSE 2 * h * p)
              ELSE IF last THEN (IF j = 0 THEN h * (2 * h - 3 * p) ELSE 3 * h * p)
              ELSE IF j = 0 THEN (3 * p - 2 * h) * (p - h) ELSE IF j = 1 THEN -9 * p * (p - h) ELSE 2 * p * (3 * p - 2 * h)
      cnt == IF last THEN M.k[i] ELSE M.k[i] + 1
  IN TLCEval([c \in DOMAIN v[1] |-> SumTo([j \in 1..cnt |-> u * W(j - 1) * v[a + j - 1][c]], cnt)])
\* E times log(x exp(e / E))
PlusE(x, e, E) == IF C.g = "R" THEN VAdd(VScale(E, x), e) ELSE <<E * x[1] + e[1], E * x[2] + e[2], E * x[3] + e[3] + x[1] * e[2] - x[2] * e[1]>>

Judge(o, r) ==
  LET nd == TLCEval(NodesFrom(M, o.sc, 1, 0))
      t == 3 * U * o.sc
      u4 == 4 * U
      xl == TLCEval([i \in 1..N |-> At(o.xl, nd[i].dt)])
      dxl == TLCEval([i \in 1..N |-> DAt(o.xl, nd[i].dt)])
      z == TLCEval([i \in 1..N |-> Force(<<nd[i].dt>> \o xl[i] \o At(o.ul, nd[i].dt))])
      ze == Force(<<t>> \o At(o.xl, 0) \o At(o.xl, t) \o <<1>>)
      ne == Len(ze)
      gf == TLCEval([i \in 1..N |-> TLCEval([j \in DOMAIN C.f |-> GradT(C.f[j], z[i], {2})])])
      fv == TLCEval([i \in 1..N |-> Force([j \in DOMAIN C.f |-> Val(C.f[j], z[i])])])
      ad == TLCEval([i \in 1..N |-> IF C.g = "R" THEN <<>> ELSE AdMat("H", VAdd(fv[i], dxl[i]))])
      gg == TLCEval([i \in 1..N |-> GradT(C.g0[1], z[i], {2})])
      gcr == TLCEval([i \in 1..N |-> TLCEval([j \in DOMAIN C.cr |-> GradT(C.cr[j], z[i], {2})])])
      gth == GradT(C.theta[1], ze, {2, 2 + C.nx})
      gce == TLCEval([j \in DOMAIN C.ce |-> GradT(C.ce[j], ze, {2, 2 + C.nx})])
      cq == gth[ne]
      var == TLCEval([c \in 1..nv |-> VarOf(c)])
      row == TLCEval([q \in 1..nc |-> RowOf(q)])
      EP(c, e) == (IF var[c][2] = var[e][2] /\ var[c][2] <= N THEN nd[var[c][2]].wn * t * cq * Hess(C.g0[1], var[c][3], var[e][3]) ELSE 0) +
                  (IF var[c][4] = {} \/ var[e][4] = {} THEN 0 ELSE u4 * SumTo([a \in 1..ne |-> IF a \in var[c][4] THEN SumTo([b \in 1..ne |-> IF b \in var[e][4] THEN Hess(C.theta[1], a, b) ELSE 0], ne) ELSE 0], ne))
      Eq0(c) == (IF var[c][2] <= N THEN nd[var[c][2]].wn * t * cq * gg[var[c][2]][var[c][3]] ELSE 0) + u4 * SumTo([a \in 1..ne |-> IF a \in var[c][4] THEN gth[a] ELSE 0], ne)
      Col(i, st) == LET iv == nd[i].iv  f0 == First(M, iv) IN IF st \in f0..(f0 + M.k[iv]) THEN Dif(M.k[iv], st - f0, nd[i].j) ELSE 0
      EA(q, c) == LET kd == row[q][1]  i == row[q][2]  j == row[q][3] IN
        CASE kd = "dyn" -> (IF var[c][2] = i THEN 72 * t * gf[i][j][var[c][3]] ELSE 0) +
                           (IF var[c][1] # "x" THEN 0 ELSE
                              (IF var[c][2] = i /\ C.g = "H" THEN -36 * t * ad[i][j][var[c][3] - 1] ELSE 0) +
                              (IF var[c][3] = 1 + j THEN (36 * Col(i, var[c][2]) * U) \div nd[i].wn ELSE 0))
          [] kd = "cr" -> IF var[c][2] = i THEN 72 * gcr[i][j][var[c][3]] ELSE 0
          [] OTHER -> 72 * SumTo([a \in 1..ne |-> IF a \in var[c][4] THEN gce[j][a] ELSE 0], ne)
      EB(q, bl, bu, inf) == LET kd == row[q][1]  i == row[q][2]  j == row[q][3] IN
        CASE kd = "dyn" -> -72 * t * (fv[i][j] - dxl[i][j])
          [] kd = "cr" -> IF bl[j] = inf THEN (IF inf < 0 THEN -Inf ELSE Inf) ELSE 72 * (bl[j] - Val(C.cr[j], z[i]))
          [] OTHER -> IF bu[j] = inf THEN (IF inf < 0 THEN -Inf ELSE Inf) ELSE 72 * (bu[j] - Val(C.ce[j], ze))
      Eq(a, b) == IF C.form # 2 THEN a = b ELSE Abs(a - b) <= 2 + Abs(b) \div 1000
      E == 162 * o.sc * o.sc
  IN IF r.pr # nv \/ r.pc # nv \/ Len(r.q) # nv \/ r.ar # nc \/ r.ac # nv \/ Len(r.l) # nc \/ Len(r.u) # nc THEN <<"sizes">>
     ELSE Rule("quadratic cost", \A c \in 1..nv : \A e \in c..nv : Eq(r.P[c][e], EP(c, e))) \o
          Rule("only the upper part of the cost is set", \A c \in 1..nv : \A e \in 1..(c - 1) : r.P[c][e] = 0 \/ r.P[c][e] = r.P[e][c]) \o
          Rule("linear cost", \A c \in 1..nv : Eq(r.q[c], Eq0(c))) \o
          Rule("dynamics constraints", \A q \in 1..(C.nx * N) : \A c \in 1..nv : Eq(r.A[q][c], EA(q, c))) \o
          Rule("running constraints", \A q \in (C.nx * N + 1)..(C.nx * N + C.ncr * N) : \A c \in 1..nv : Eq(r.A[q][c], EA(q, c))) \o
          Rule("end constraints", \A q \in (C.nx * N + C.ncr * N + 1)..nc : \A c \in 1..nv : Eq(r.A[q][c], EA(q, c))) \o
          Rule("lower bounds", \A q \in 1..nc : Eq(r.l[q], EB(q, C.crl, C.cel, -99))) \o
          Rule("upper bounds", \A q \in 1..nc : Eq(r.u[q], EB(q, C.cru, C.ceu, 99))) \o
          Rule("final time of the solution", r.tf = t /\ r.t0 = 0) \o
          Rule("type of the solution", r.same = 1) \o
          Rule("state trajectory of the solution", \A n \in DOMAIN o.at : o.at[n] > t \/ r.at[n].x = PlusE(At(o.xl, o.at[n]), Interp(o.x, o.at[n], o.sc, TRUE), E)) \o
          Rule("input trajectory of the solution", \A n \in DOMAIN o.at : o.at[n] > t \/ r.at[n].u = VAdd(VScale(E, At(o.ul, o.at[n])), Interp(o.u, o.at[n], o.sc, FALSE))) \o
          Rule("numbers are finite and multiples of the unit", r.fin = 1 /\ (C.form = 2 \/ r.int = 1))

Init == idx \in 1..Len(Cases) /\ k = 1 /\ why = <<>>
Oper == /\ Tr.ev = "ok" /\ k >= 1 /\ k <= Len(C.ops) /\ why = <<>>
        /\ why' = Judge(C.ops[k], Tr.res[k]) /\ k' = k + 1 /\ UNCHANGED idx
NoAnswer == /\ k = 1 /\ Tr.ev \in {"crash", "hang"}
            /\ why' = <<"every transcription returns (no " \o Tr.ev \o ")">> /\ k' = -1 /\ UNCHANGED idx
Next == Oper \/ NoAnswer
Spec == Init /\ [][Next]_vars
Conforms == why = <<>>
WellFormed == Len(Trace) = Len(Cases) /\ Tr.id = C.id
=============================================================================
