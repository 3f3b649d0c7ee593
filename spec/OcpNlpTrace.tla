---------------------------- MODULE OcpNlpTrace ----------------------------
(* The nonlinear program of an optimal control problem: sizes, bounds, values  *)
(* and derivatives.  Variables [tf, q, x_0 .. x_N, u_0 .. u_N-1], constraints  *)
(* [dynamics, integrals, running (scaled by node weight), end].  All but the   *)
(* end constraints are divided by the largest node weight.  Every number of    *)
(* the code times S = 2 T^2 W (W the largest weight times 4 U) is an integer.  *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
VARIABLES idx, k, why
vars == <<idx, k, why>>
C == Cases[idx]
Tr == Trace[idx]
Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Force(s) == TLCEval([i \in DOMAIN s |-> s[i]])
Dot(a, b) == SumTo([i \in DOMAIN a |-> a[i] * b[i]], Len(a))

M == C.mesh
U == SumTo(M.len, Len(M.len))
RECURSIVE NodesFrom(_, _, _, _)
NodesFrom(m, sc, i, start) ==
  IF i > Len(m.k) THEN <<>>
  ELSE (IF m.k[i] = 1 THEN <<[iv |-> i, j |-> 1, dt |-> 3 * sc * start, wn |-> 4 * m.len[i]]>>
        ELSE <<[iv |-> i, j |-> 1, dt |-> 3 * sc * start, wn |-> m.len[i]], [iv |-> i, j |-> 2, dt |-> 3 * sc * start + 2 * sc * m.len[i], wn |-> 3 * m.len[i]]>>)
       \o NodesFrom(m, sc, i + 1, start + m.len[i])
First(m, i) == 1 + SumTo(m.k, i - 1)
Dif(kk, s, j) == IF kk = 1 THEN (IF s = 0 THEN 8 ELSE -8) ELSE IF j = 1 THEN <<5, -9, 4>>[s + 1] ELSE <<3, 9, -12>>[s + 1]
N == SumTo(M.k, Len(M.k))
RECURSIVE MaxW(_, _)
MaxW(nd, n) == IF n = 0 THEN 0 ELSE LET r == MaxW(nd, n - 1) IN IF nd[n].wn > r THEN nd[n].wn ELSE r
W == MaxW(NodesFrom(M, 1, 1, 0), N)

nv == 1 + C.nq + C.nx * (N + 1) + C.nu * N
nc == C.nx * N + C.nq + C.ncr * N + C.nce

(* polynomials *)
Val(f, z) == f.c + Dot(f.l, z) + SumTo([a \in DOMAIN z |-> z[a] * Dot(f.q[a], z)], Len(z))
Grad(f, z) == [a \in DOMAIN z |-> f.l[a] + Dot(f.q[a], z) + SumTo([b \in DOMAIN z |-> f.q[b][a] * z[b]], Len(z))]
Hess(f, a, b) == f.q[a][b] + f.q[b][a]

(* variable c: kind, node, position in (t, x, u), positions in (tf, x0, xf, q) *)
VarOf(c) ==
  IF c = 1 THEN <<"tf", 0, 1, {1}>>
  ELSE IF c <= 1 + C.nq THEN <<"q", c - 1, 0, {2 * C.nx + c}>>
  ELSE IF c <= 1 + C.nq + C.nx * (N + 1)
    THEN LET e == c - 2 - C.nq  nd == e \div C.nx + 1  a == e % C.nx IN
         <<"x", nd, 2 + a, (IF nd = 1 THEN {2 + a} ELSE {}) \union (IF nd = N + 1 THEN {2 + C.nx + a} ELSE {})>>
  ELSE LET e == c - 2 - C.nq - C.nx * (N + 1) IN <<"u", e \div C.nu + 1, 2 + C.nx + (e % C.nu), {}>>
Var == TLCEval([c \in 1..nv |-> VarOf(c)])
\* constraint row: kind, node, component
RowOf(r) ==
  IF r <= C.nx * N THEN <<"dyn", (r - 1) \div C.nx + 1, ((r - 1) % C.nx) + 1>>
  ELSE IF r <= C.nx * N + C.nq THEN <<"int", 0, r - C.nx * N>>
  ELSE IF r <= C.nx * N + C.nq + C.ncr * N THEN LET e == r - C.nx * N - C.nq - 1 IN <<"cr", e \div C.ncr + 1, (e % C.ncr) + 1>>
  ELSE <<"ce", 0, r - C.nx * N - C.nq - C.ncr * N>>
Inf == 999999
BoundL(r) == LET w == RowOf(r) IN IF w[1] \in {"dyn", "int"} THEN 0 ELSE LET b == IF w[1] = "cr" THEN C.crl[w[3]] ELSE C.cel[w[3]] IN
             IF b = -99 THEN -Inf ELSE IF w[1] = "cr" THEN b * NodesFrom(M, 1, 1, 0)[w[2]].wn ELSE b * W
BoundU(r) == LET w == RowOf(r) IN IF w[1] \in {"dyn", "int"} THEN 0 ELSE LET b == IF w[1] = "cr" THEN C.cru[w[3]] ELSE C.ceu[w[3]] IN
             IF b = 99 THEN Inf ELSE IF w[1] = "cr" THEN b * NodesFrom(M, 1, 1, 0)[w[2]].wn ELSE b * W

JudgeStart ==
  Rule("number of variables", Tr.n = nv) \o Rule("number of constraints", Tr.m = nc) \o
  Rule("sizes of the bounds", Len(Tr.xl) = nv /\ Len(Tr.xu) = nv /\ Len(Tr.gl) = nc /\ Len(Tr.gu) = nc) \o
  (IF Len(Tr.xl) # nv \/ Len(Tr.xu) # nv \/ Len(Tr.gl) # nc \/ Len(Tr.gu) # nc THEN <<>> ELSE
   Rule("variable bounds", Tr.xl[1] = 0 /\ Tr.xu[1] = Inf /\ \A c \in 2..nv : Tr.xl[c] = -Inf /\ Tr.xu[c] = Inf) \o
   Rule("constraint bounds", \A r \in 1..nc : Tr.gl[r] = BoundL(r) /\ Tr.gu[r] = BoundU(r)))

Judge(o, res) ==
  LET nd == TLCEval(NodesFrom(M, o.sc, 1, 0))
      t == 3 * U * o.sc
      s == 2 * t * t * W
      z == TLCEval([i \in 1..N |-> Force(<<nd[i].dt>> \o o.x[i] \o o.u[i])])
      ze == Force(<<t>> \o o.x[1] \o o.x[N + 1] \o o.q)
      kinds == {"dyn", "int", "cr"}
      Fn(kd) == IF kd = "dyn" THEN C.f ELSE IF kd = "int" THEN C.g ELSE C.cr
      v == TLCEval([kd \in kinds |-> TLCEval([i \in 1..N |-> Force([j \in DOMAIN Fn(kd) |-> Val(Fn(kd)[j], z[i])])])])
      g == TLCEval([kd \in kinds |-> TLCEval([i \in 1..N |-> TLCEval([j \in DOMAIN Fn(kd) |-> Force(Grad(Fn(kd)[j], z[i]))])])])
      var == Var
      w == TLCEval([i \in 1..N |-> 2 * nd[i].wn])
      ho(kd) == kd # "cr"
      FV(kd, i, j) == w[i] * t * t * (IF ho(kd) THEN t ELSE 1) * v[kd][i][j]
      \* derivative of node i, component j of kd with respect to variable c
      DV(kd, i, j, c) ==
        LET k0 == var[c][1] IN
        IF k0 = "q" THEN 0
        ELSE IF k0 = "tf" THEN w[i] * t * (IF ho(kd) THEN t * nd[i].dt * g[kd][i][j][1] + t * v[kd][i][j] ELSE nd[i].dt * g[kd][i][j][1])
        ELSE IF var[c][2] = i THEN w[i] * t * t * (IF ho(kd) THEN t ELSE 1) * g[kd][i][j][var[c][3]] ELSE 0
      HV(kd, i, j, c, e) ==
        LET kc == var[c][1]  ke == var[e][1]  pc == var[c][3]  pe == var[e][3]  ch == nd[i].dt IN
        IF kc = "q" \/ ke = "q" THEN 0
        ELSE LET h == Hess(Fn(kd)[j], pc, pe) IN
          IF kc # "tf" THEN (IF var[c][2] = i /\ var[e][2] = i THEN w[i] * t * t * (IF ho(kd) THEN t ELSE 1) * h ELSE 0)
          ELSE IF ke # "tf" THEN (IF var[e][2] = i THEN w[i] * t * (IF ho(kd) THEN t * ch * h + t * g[kd][i][j][pe] ELSE ch * h) ELSE 0)
          ELSE w[i] * (IF ho(kd) THEN t * ch * ch * h + 2 * t * ch * g[kd][i][j][1] ELSE ch * ch * h)
      Col(i, st) == LET iv == nd[i].iv  f0 == First(M, iv) IN IF st \in f0..(f0 + M.k[iv]) THEN Dif(M.k[iv], st - f0, nd[i].j) ELSE 0
      d8 == U * t * t
      \* end functions
      EV(f) == s * Val(f, ze)
      EG(f, c) == LET gr == Force(Grad(f, ze)) IN s * SumTo([a \in DOMAIN ze |-> IF a \in var[c][4] THEN gr[a] ELSE 0], Len(ze))
      EHs(f, c, e) == s * SumTo([a \in DOMAIN ze |-> IF a \in var[c][4] THEN SumTo([b \in DOMAIN ze |-> IF b \in var[e][4] THEN Hess(f, a, b) ELSE 0], Len(ze)) ELSE 0], Len(ze))
      row == TLCEval([r \in 1..nc |-> RowOf(r)])
      G(r) == LET kd == row[r][1]  i == row[r][2]  j == row[r][3] IN
        CASE kd = "dyn" -> FV(kd, i, j) + d8 * SumTo([st \in 1..(N + 1) |-> Col(i, st) * o.x[st][j]], N + 1)
          [] kd = "int" -> SumTo([n \in 1..N |-> FV(kd, n, j)], N) - 8 * d8 * o.q[j]
          [] kd = "cr" -> FV(kd, i, j)
          [] OTHER -> EV(C.ce[j])
      DG(r, c) == LET kd == row[r][1]  i == row[r][2]  j == row[r][3] IN
        CASE kd = "dyn" -> DV(kd, i, j, c) + (IF var[c][1] = "x" /\ var[c][3] = 1 + j THEN d8 * Col(i, var[c][2]) ELSE 0)
          [] kd = "int" -> (IF var[c][1] = "q" THEN (IF var[c][2] = j THEN -8 * d8 ELSE 0) ELSE SumTo([n \in 1..N |-> DV(kd, n, j, c)], N))
          [] kd = "cr" -> DV(kd, i, j, c)
          [] OTHER -> EG(C.ce[j], c)
      Lam(kd, i, j) == IF kd = "dyn" THEN o.lam[C.nx * (i - 1) + j] ELSE IF kd = "int" THEN o.lam[C.nx * N + j]
                       ELSE IF kd = "cr" THEN o.lam[C.nx * N + C.nq + C.ncr * (i - 1) + j] ELSE o.lam[C.nx * N + C.nq + C.ncr * N + j]
      NodeH(i, c, e) == LET P(kd) == SumTo([j \in DOMAIN Fn(kd) |-> IF Lam(kd, i, j) = 0 THEN 0 ELSE Lam(kd, i, j) * HV(kd, i, j, c, e)], Len(Fn(kd))) IN P("dyn") + P("int") + P("cr")
      \* entry c <= e of the Hessian of the Lagrangian
      HG(c, e) ==
        (IF var[c][1] = "q" \/ var[e][1] = "q" THEN 0
         ELSE IF var[e][1] = "tf" THEN SumTo([i \in 1..N |-> NodeH(i, c, e)], N)
         ELSE IF var[e][2] > N \/ (var[c][1] # "tf" /\ var[c][2] # var[e][2]) THEN 0
         ELSE NodeH(var[e][2], c, e)) +
        (IF var[c][4] = {} \/ var[e][4] = {} THEN 0 ELSE SumTo([j \in 1..C.nce |-> IF Lam("ce", 0, j) = 0 THEN 0 ELSE Lam("ce", 0, j) * EHs(C.ce[j], c, e)], C.nce))
      tol == IF C.form = 2 THEN 2 + s \div 50 ELSE 1
      Eq(a, b) == IF C.form # 2 THEN a = b ELSE Abs(a - b) <= tol + Abs(b) \div 10000
      One(wh, r) ==
        CASE wh = "f" -> Rule("cost", Eq(r.v, EV(C.theta[1])))
          [] wh = "df" -> IF Len(r.v) # 1 \/ Len(r.v[1]) # nv THEN <<"size of the cost gradient">> ELSE Rule("cost gradient", \A c \in 1..nv : Eq(r.v[1][c], EG(C.theta[1], c)))
          [] wh = "g" -> IF Len(r.v) # nc THEN <<"number of constraint values">> ELSE Rule("constraint values", \A q \in 1..nc : Eq(r.v[q], G(q)))
          [] wh = "dg" -> IF Len(r.v) # nc \/ Len(r.v[1]) # nv THEN <<"size of the constraint Jacobian">>
                          ELSE Rule("constraint Jacobian", \A q \in 1..nc : \A c \in 1..nv : Eq(r.v[q][c], DG(q, c)))
          [] wh = "d2f" -> IF Len(r.v) # nv \/ Len(r.v[1]) # nv THEN <<"size of the cost Hessian">>
                           ELSE Rule("cost Hessian", \A c \in 1..nv : \A e \in 1..nv : Eq(r.v[c][e], IF c > e THEN 0 ELSE EHs(C.theta[1], c, e)))
          [] OTHER -> IF Len(r.v) # nv \/ Len(r.v[1]) # nv THEN <<"size of the Hessian of the Lagrangian">>
                      ELSE Rule("Hessian of the Lagrangian", \A c \in 1..nv : \A e \in 1..nv : Eq(r.v[c][e], IF c > e THEN 0 ELSE HG(c, e)))
      RECURSIVE All(_)
      All(n) == IF n = 0 THEN <<>> ELSE All(n - 1) \o One(o.what[n], res[n])
  IN All(Len(o.what)) \o Rule("numbers are finite and multiples of the unit", \A n \in DOMAIN res : res[n].st = 1 /\ (C.form = 2 \/ res[n].int = 1))

Init == idx \in 1..Len(Cases) /\ k = 0 /\ why = <<>>
Start == Tr.ev = "ok" /\ k = 0 /\ why = <<>> /\ why' = JudgeStart /\ k' = 1 /\ UNCHANGED idx
Oper == /\ Tr.ev = "ok" /\ k >= 1 /\ k <= Len(C.ops) /\ why = <<>>
        /\ why' = Judge(C.ops[k], Tr.res[k]) /\ k' = k + 1 /\ UNCHANGED idx
NoAnswer == /\ k = 0 /\ Tr.ev \in {"crash", "hang"}
            /\ why' = <<"every evaluation returns (no " \o Tr.ev \o ")">> /\ k' = -1 /\ UNCHANGED idx
Next == Start \/ Oper \/ NoAnswer
Spec == Init /\ [][Next]_vars
Conforms == why = <<>>
WellFormed == Len(Trace) = Len(Cases) /\ Tr.id = C.id
=============================================================================
