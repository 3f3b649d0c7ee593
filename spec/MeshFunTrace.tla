---------------------------- MODULE MeshFunTrace ----------------------------
(* Values and derivatives of functions over a mesh.  Every number of the code  *)
(* times D = 8 U T^2 is an integer that is compared with the exact one.        *)
(* The trace of a shared result object must equal that of fresh objects: the   *)
(* expected answer below only depends on the current operation.                *)
EXTENDS LieModel, Json, IOUtils, TLC
CONSTANT Prop
Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
VARIABLES idx, k, why
vars == <<idx, k, why>>
C == Cases[idx]
Tr == Trace[idx]
Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Force(s) == TLCEval([i \in DOMAIN s |-> s[i]])

(* nodes of a mesh: [iv, len, dt, wn (weight times 4 U), j (within interval)]  *)
M(o) == C.meshes[o.ms + 1]
U(o) == SumTo(M(o).len, Len(M(o).len))
T(o) == 3 * U(o) * C.sc
D(o) == 8 * U(o) * T(o) * T(o)
RECURSIVE NodesFrom(_, _, _)
NodesFrom(m, i, start) ==
  IF i > Len(m.k) THEN <<>>
  ELSE (IF m.k[i] = 1 THEN <<[iv |-> i, j |-> 1, dt |-> 3 * C.sc * start, wn |-> 4 * m.len[i]]>>
        ELSE <<[iv |-> i, j |-> 1, dt |-> 3 * C.sc * start, wn |-> m.len[i]], [iv |-> i, j |-> 2, dt |-> 3 * C.sc * start + 2 * C.sc * m.len[i], wn |-> 3 * m.len[i]]>>)
       \o NodesFrom(m, i + 1, start + m.len[i])
\* first node of interval i
First(m, i) == 1 + SumTo(m.k, i - 1)
\* 8 * coefficient of state s of the interval (from 0) in its j-th defect
Dif(kk, s, j) == IF kk = 1 THEN (IF s = 0 THEN 8 ELSE -8) ELSE IF j = 1 THEN <<5, -9, 4>>[s + 1] ELSE <<3, 9, -12>>[s + 1]

Fs(o) == IF o.fn = "dyn" THEN C.fd[o.fi + 1] ELSE C.f[o.fi + 1]
NV == 1 + C.nx + C.nu
Z(o, nd, i) == <<o.t0 + nd[i].dt>> \o o.x[i] \o o.u[i]
Val(f, z) == f.c + VDot(f.l, z) + SumTo([a \in 1..NV |-> z[a] * VDot(f.q[a], z)], NV)
Grad(f, z) == [a \in 1..NV |-> f.l[a] + VDot(f.q[a], z) + SumTo([b \in 1..NV |-> f.q[b][a] * z[b]], NV)]
Hess(f, a, b) == f.q[a][b] + f.q[b][a]
\* gradient in the tangent space
GradT(f, z) ==
  LET g == Force(Grad(f, z)) IN
  IF C.g = "R" THEN g
  ELSE LET dr == DrInv("H", SubSeq(z, 2, 4)) IN [a \in 1..NV |-> IF a \in 2..4 THEN SumTo([b \in 1..3 |-> g[b + 1] * dr[b][a - 1]], 3) ELSE g[a]]

(* multiplicity of node i times D / common factor for each function: value     *)
Judge(o, r) ==
  LET m == M(o)
      nd == TLCEval(NodesFrom(m, 1, 0))
      N == Len(nd)
      fs == Fs(o)
      nf == Len(fs)
      t == T(o)
      d == D(o)
      u == U(o)
      z == TLCEval([i \in 1..N |-> Z(o, nd, i)])
      v == TLCEval([i \in 1..N |-> Force([j \in 1..nf |-> Val(fs[j], z[i])])])
      g == TLCEval([i \in 1..N |-> TLCEval([j \in 1..nf |-> Force(GradT(fs[j], z[i]))])])
      \* 8 U times the weight (8 U: weight one)
      w == TLCEval([i \in 1..N |-> IF o.fn = "eval" /\ o.scale = 0 THEN 8 * u ELSE 2 * nd[i].wn])
      ho == o.fn # "eval"   \* horizon is a factor
      numVars == 2 + C.nx * (N + 1) + C.nu * N
      \* variable of column c: <<kind, node, position in z>>
      var == TLCEval([c \in 1..numVars |->
          IF c = 1 THEN <<"t0", 0, 1>> ELSE IF c = 2 THEN <<"tf", 0, 1>>
          ELSE IF c <= 2 + C.nx * (N + 1) THEN <<"x", (c - 3) \div C.nx + 1, 2 + ((c - 3) % C.nx)>>
          ELSE LET e == c - 3 - C.nx * (N + 1) IN <<"u", e \div C.nu + 1, 2 + C.nx + (e % C.nu)>>])
      \* D times contribution of node i, component j
      FV(i, j) == w[i] * t * t * (IF ho THEN t ELSE 1) * v[i][j]
      DV(i, j, c) ==
        LET k0 == var[c][1] IN
        IF k0 \in {"x", "u"} THEN (IF var[c][2] = i THEN w[i] * t * t * (IF ho THEN t ELSE 1) * g[i][j][var[c][3]] ELSE 0)
        ELSE LET ch == IF k0 = "t0" THEN t - nd[i].dt ELSE nd[i].dt  sg == IF k0 = "t0" THEN -1 ELSE 1 IN
             w[i] * t * (IF ho THEN t * ch * g[i][j][1] + sg * t * v[i][j] ELSE ch * g[i][j][1])
      \* second derivative, c <= e
      HV(i, j, c, e) ==
        LET kc == var[c][1]  ke == var[e][1]  pc == var[c][3]  pe == var[e][3]
            Ch(kk) == IF kk = "t0" THEN t - nd[i].dt ELSE nd[i].dt
            Sg(kk) == IF kk = "t0" THEN -1 ELSE 1
            h == Hess(fs[j], pc, pe)
        IN IF kc \in {"x", "u"} THEN (IF var[c][2] = i /\ var[e][2] = i THEN w[i] * t * t * (IF ho THEN t ELSE 1) * h ELSE 0)
           ELSE IF ke \in {"x", "u"} THEN (IF var[e][2] = i THEN w[i] * t * (IF ho THEN t * Ch(kc) * h + Sg(kc) * t * g[i][j][pe] ELSE Ch(kc) * h) ELSE 0)
           ELSE w[i] * (IF ho THEN t * Ch(kc) * Ch(ke) * h + t * (Sg(kc) * Ch(ke) + Sg(ke) * Ch(kc)) * g[i][j][1] ELSE Ch(kc) * Ch(ke) * h)
      \* 8 * collocation coefficient of state s in defect of node i
      Col(i, s) == LET iv == nd[i].iv  f0 == First(m, iv) IN IF s \in f0..(f0 + m.k[iv]) THEN Dif(m.k[iv], s - f0, nd[i].j) ELSE 0
      d8 == d \div 8
      rows == IF o.fn = "int" THEN nf ELSE nf * N
      node(row) == (row - 1) \div nf + 1
      comp(row) == ((row - 1) % nf) + 1
      EF(row) ==
        CASE o.fn = "eval" -> FV(node(row), comp(row))
          [] o.fn = "int" -> SumTo([i \in 1..N |-> FV(i, row)], N)
          [] OTHER -> FV(node(row), comp(row)) + d8 * SumTo([s \in 1..(N + 1) |-> Col(node(row), s) * o.x[s][comp(row)]], N + 1)
      EDF(row, c) ==
        CASE o.fn = "eval" -> DV(node(row), comp(row), c)
          [] o.fn = "int" -> SumTo([i \in 1..N |-> DV(i, row, c)], N)
          [] OTHER -> DV(node(row), comp(row), c) + (IF var[c][1] = "x" /\ var[c][3] = 1 + comp(row) THEN d8 * Col(node(row), var[c][2]) ELSE 0)
      LamOf(i, j) == IF o.fn = "int" THEN o.lam[j] ELSE o.lam[nf * (i - 1) + j]
      EH(c, e) == IF c > e THEN 0
                  ELSE IF var[e][1] \in {"x", "u"} THEN (IF var[e][2] > N THEN 0 ELSE SumTo([j \in 1..nf |-> IF LamOf(var[e][2], j) = 0 THEN 0 ELSE LamOf(var[e][2], j) * HV(var[e][2], j, c, e)], nf))
                  ELSE SumTo([i \in 1..N |-> SumTo([j \in 1..nf |-> LamOf(i, j) * HV(i, j, c, e)], nf)], N)
      tol == IF (o.form = 1 /\ o.deriv < 2) \/ C.g = "H" THEN 2 + d \div 100 ELSE 1
      Eq(a, b) == IF tol = 1 THEN a = b ELSE Abs(a - b) <= tol + Abs(b) \div 10000
  IN IF Len(r.F) # rows THEN <<"number of outputs">>
     ELSE Rule("numbers are multiples of 1 / (8 U T^2)", r.int = 1 \/ tol # 1) \o
          Rule("values", \A row \in 1..rows : Eq(r.F[row], EF(row))) \o
          (IF o.deriv = 0 THEN <<>>
           ELSE IF Len(r.J) # rows \/ r.vars # numVars THEN <<"size of the first derivative">>
           ELSE Rule("first derivative", \A row \in 1..rows : \A c \in 1..numVars : Eq(r.J[row][c], EDF(row, c)))) \o
          (IF o.deriv < 2 THEN <<>>
           ELSE IF Len(r.H) # numVars THEN <<"size of the second derivative">>
           ELSE Rule("second derivative", \A c \in 1..numVars : \A e \in 1..numVars : Eq(r.H[c][e], EH(c, e)))) \o
          Rule("sparse storage is consistent", r.st = 1)

Init == idx \in 1..Len(Cases) /\ k = 1 /\ why = <<>>
Oper == /\ Tr.ev = "ok" /\ k >= 1 /\ k <= Len(C.ops) /\ why = <<>>
        /\ why' = Judge(C.ops[k], Tr.res[k]) /\ k' = k + 1 /\ UNCHANGED idx
NoAnswer == /\ k = 1 /\ Tr.ev \in {"crash", "hang"}
            /\ why' = <<"every evaluation returns (no " \o Tr.ev \o ")">> /\ k' = -1 /\ UNCHANGED idx
Next == Oper \/ NoAnswer
Spec == Init /\ [][Next]_vars
Conforms == why = <<>>
WellFormed == Len(Trace) = Len(Cases) /\ Tr.id = C.id
=============================================================================
