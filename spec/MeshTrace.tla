----------------------------- MODULE MeshTrace ------------------------------
(* Validates recorded mesh histories against MeshModel: every state (M01), the *)
(* nodes, weights and matrices (M02) and lookup and interpolation (M03) of the *)
(* final mesh.                                                                 *)
EXTENDS MeshModel, Json, IOUtils, TLC
CONSTANT Prop

Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
VARIABLES idx, k, ms, why
vars == <<idx, k, ms, why>>
C == Cases[idx]
T == Trace[idx]
Kmin == C.tpl[1]
Kmax == C.tpl[2]
Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>
MaxN == 12

Apply(s, o) ==
  LET i == (o.i % Len(s)) + 1 IN
  CASE o.o = "ph" -> RefinePh(s, i, o.d, Kmin, Kmax)
    [] o.o = "err" -> RefineErr(s, [j \in DOMAIN s |-> o.e[((j - 1) % Len(o.e)) + 1]], Len(s), Kmin, Kmax)
    [] o.o = "set" -> SetK(s, i, o.d)
    [] o.o = "inc" -> Inc(s, Kmax)
    [] o.o = "dec" -> Dec(s, Kmin)
    [] OTHER -> s
Step(s, o) == IF Len(s) > MaxN THEN s ELSE Apply(s, o)

(* ------------------------------------------------------------------ M01 *)
SB == 100000
Near(q, f) == Abs(q[1] * SB - f * q[2]) <= 2 * q[2]
JudgeState(s, r) ==
  Rule("number of intervals after " \o r.o, r.n = Len(s) /\ Len(r.k) = r.n) \o
  (IF r.n # Len(s) \/ Len(r.k) # r.n THEN <<>> ELSE
  Rule("degrees after " \o r.o, \A i \in DOMAIN s : r.k[i] = s[i].k) \o
  Rule("number of collocation points", r.nc = Colloc(s)) \o
  Rule("interval end points after " \o r.o, \A i \in DOMAIN s : Near(s[i].a, r.a[i]) /\ Near(s[i].b, r.b[i]))) \o
  Rule("copy keeps its own intervals", r.cp = 1)

(* ------------------------------------------------------------------ M02 *)
S8 == 100000000
S7 == 10000000
Close(a, b, t) == Abs(a - b) <= t
F == T.fin
RECURSIVE SumSeq(_, _)
SumSeq(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumSeq(q, n - 1)
RECURSIVE Cat(_, _)
Cat(qq, n) == IF n = 0 THEN <<>> ELSE Cat(qq, n - 1) \o (IF n < Len(qq) THEN SubSeq(qq[n], 1, Len(qq[n]) - 1) ELSE qq[n])

JudgeNodes(s) ==
  Rule("nodes are the interval nodes in order, the end point included", F.nodes = Cat(F.inode, Len(F.inode)) /\ Len(F.nodes) = Colloc(s) + 1) \o
  Rule("weights are the interval weights in order", F.wts = Cat(F.iw, Len(F.iw)) /\ Len(F.wts) = Colloc(s) + 1) \o
  Rule("nodes increase from 0 to 1", F.nodes[1] = 0 /\ F.nodes[Len(F.nodes)] = S8 /\ \A i \in 1..(Len(F.nodes) - 1) : F.nodes[i] < F.nodes[i + 1]) \o
  Rule("weights are positive except at 1", F.wts[Len(F.wts)] = 0 /\ \A i \in 1..(Len(F.wts) - 1) : F.wts[i] > 0) \o
  Rule("weights sum to one", Close(SumSeq(F.wts, Len(F.wts)), S8, 2 * Len(F.wts))) \o
  Rule("interval accessors have K + 1 elements", \A i \in DOMAIN s : Len(F.inode[i]) = s[i].k + 1 /\ Len(F.iw[i]) = s[i].k + 1)

JudgeMat(s, m) ==
  LET K == s[m.i].k IN
  Rule("quadrature is exact to degree 2K-2", Len(m.mom) >= 2 * K - 1 /\ \A p \in 1..(2 * K - 1) : Close(m.mom[p], S8, 50)) \o
  Rule("matrix sizes", m.dr = K + 1 /\ m.dc = K /\ m.ir = K /\ m.ic = K) \o
  Rule("differentiation matrix is exact on polynomials of degree K",
       /\ \A j \in 1..K : Close(m.dm[1][j], 0, 50)
       /\ \A p \in 1..K, j \in 1..K : Close(m.dm[p + 1][j], p * m.pw[p][j], 50 + 2 * p)) \o
  Rule("integration matrix is exact on polynomials of degree K-1",
       \A p \in 1..K, j \in 1..K : Close(m.im[p][j], m.pw[p + 1][j + 1], 50)) \o
  Rule("unscaled differentiation matrix times its factor is the differentiation matrix", m.us = 0) \o
  Rule("factor of the unscaled differentiation matrix", Close(m.al, 2 * S7, 50))

(* ------------------------------------------------------------------ M03 *)
Pow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
Le(p, q) == p[1] * q[2] <= q[1] * p[2]
\* admissible (0-based) answers for the interval of t; a boundary that is not exactly representable may count to either side
Find(s, t) ==
  IF t[1] < 0 THEN {0} ELSE IF t[1] > t[2] THEN {Len(s) - 1}
  ELSE {i - 1 : i \in {j \in DOMAIN s : \/ (Le(s[j].a, t) /\ (Less(t, s[j].b) \/ j = Len(s)))
                                       \/ (~Pow2(s[j].b[2]) /\ Le(t, s[j].b) /\ Le(s[j].b, t))}}

(* polynomial of interval i in the local coordinate: ascending coefficients *)
MaxDeg == 5
Deg(s, i, ext) == Mn(MaxDeg, IF i = Len(s) /\ ext = 0 THEN s[i].k - 1 ELSE s[i].k)
Yv(i) == C.y[((i - 1) % 5) + 1]
Qv(i, j) == C.q[((i + j - 1) % 4) + 1]
Coef(s, i) ==
  LET d == Deg(s, i, C.ext) IN
  [c \in 1..(d + 1) |->
     (IF c = 1 THEN Yv(i) ELSE 0) + (IF c = 2 THEN Yv(i + 1) - Yv(i) ELSE 0)
     + (IF c >= 2 /\ c <= d THEN Qv(i, c - 1) ELSE 0) - (IF c >= 3 THEN Qv(i, c - 2) ELSE 0)]
Deriv(c) == IF Len(c) <= 1 THEN <<0>> ELSE [j \in 1..(Len(c) - 1) |-> j * c[j + 1]]
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE Poly(_, _, _)
\* 1024 * value at m/4
Poly(c, m, j) == IF j = 0 THEN 0 ELSE c[j] * Pow(m, j - 1) * Pow(4, MaxDeg + 1 - j) + Poly(c, m, j - 1)
Val(c, m, p) == LET e == IF p = 0 THEN c ELSE IF p = 1 THEN Deriv(c) ELSE Deriv(Deriv(c)) IN 1000 * Poly(e, m, Len(e))

JudgeFind(s) ==
  Rule("the interval of a time contains it", \A j \in DOMAIN C.ts : F.find[j] \in Find(s, C.ts[j])) \o
  Rule("the interval of its own start is the interval", \A i \in DOMAIN s : F.fstart[i] = i - 1) \o
  Rule("the interval of 1 is the last", F.fone = Len(s) - 1)
JudgeEval(s, m) ==
  Rule("evaluation reproduces polynomials and their derivatives", \A j \in 1..3 : Close(m.ev[j][1], Val(Coef(s, m.i), j, C.p), 20) /\ Close(m.ev[j][2], 2 * m.ev[j][1], 20)) \o
  Rule("evaluation at the nodes gives the node values", \A j \in DOMAIN m.nv : Close(m.nv[j][1], m.nv[j][2], 20))

RECURSIVE AllMat(_, _)
AllMat(s, n) == IF n = 0 THEN <<>> ELSE AllMat(s, n - 1) \o JudgeMat(s, F.mat[n])
RECURSIVE AllEval(_, _)
AllEval(s, n) == IF n = 0 THEN <<>> ELSE AllEval(s, n - 1) \o JudgeEval(s, F.mat[n])
JudgeFinal(s) ==
  CASE Prop = "M02" -> IF Len(F.inode) # Len(s) THEN <<"mesh has the expected number of intervals">> ELSE JudgeNodes(s) \o AllMat(s, Len(F.mat))
    [] Prop = "M03" -> IF Len(F.inode) # Len(s) THEN <<"mesh has the expected number of intervals">> ELSE JudgeFind(s) \o AllEval(s, Len(F.mat))
    [] OTHER -> <<>>

Init0(c) == IF c.n < 0 THEN New(1, c.tpl[1]) ELSE New(c.n, c.k)
Init == idx \in 1..Len(Cases) /\ k = 0 /\ ms = Init0(Cases[idx]) /\ why = <<>>
\* k = number of judged states
Begin == /\ T.ev = "ok" /\ k = 0
         /\ why' = (IF Prop = "M01" THEN JudgeState(ms, T.res[1]) ELSE <<>>) /\ k' = 1 /\ UNCHANGED <<idx, ms>>
Oper == /\ T.ev = "ok" /\ k >= 1 /\ k <= Len(C.ops) /\ why = <<>>
        /\ ms' = Step(ms, C.ops[k])
        /\ why' = (IF Prop = "M01" THEN JudgeState(ms', T.res[k + 1]) \o Rule("model", Partition(ms') /\ Degrees(ms', Kmin, Kmax)) ELSE <<>>)
        /\ k' = k + 1 /\ UNCHANGED idx
Final == /\ T.ev = "ok" /\ k = Len(C.ops) + 1 /\ why = <<>>
         /\ why' = JudgeFinal(ms) /\ k' = k + 1 /\ UNCHANGED <<idx, ms>>
NoAnswer == /\ k = 0 /\ T.ev \in {"crash", "hang"}
            /\ why' = <<"every operation returns (no " \o T.ev \o ")">> /\ k' = -1 /\ UNCHANGED <<idx, ms>>
Next == Begin \/ Oper \/ Final \/ NoAnswer
Spec == Init /\ [][Next]_vars
Conforms == why = <<>>
WellFormed == Len(Trace) = Len(Cases) /\ T.id = C.id
=============================================================================
