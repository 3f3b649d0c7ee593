----------------------------- MODULE FlatTrace ------------------------------
(* The flattened problem at tangent coordinates is the original problem at the *)
(* corresponding group elements; its derivatives are those of exact Taylor     *)
(* arithmetic along curves that leave the reference with its velocity.         *)
EXTENDS Jets, LieModel, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
VARIABLES idx, k, why
vars == <<idx, k, why>>
C == Cases[idx]
Tr == Trace[idx]
Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>
At(tr, t) == TLCEval([j \in DOMAIN tr |-> ((tr[j].a + tr[j].b * t) % C.mod) - (C.mod \div 2)])
DAt(tr, t) == TLCEval([j \in DOMAIN tr |-> ((tr[j].da + tr[j].db * t) % C.mod) - (C.mod \div 2)])
NV == 1 + C.nx + C.nu
NE == 1 + 2 * C.nx + C.nq
JVec(n, x) == TLCEval([i \in DOMAIN x |-> JConst(n, x[i])])
JVars(n, x, b) == TLCEval([i \in DOMAIN x |-> JVar(n, x[i], b + i)])
\* jets of log(xl(t) exp(e)): variable 1 is the time, e the variables from b + 1
Moved(n, gr, x, dx, e, b) ==
  JGMul(gr, JGMul(gr, JVec(n, x), TLCEval([i \in DOMAIN dx |-> JScale(dx[i], JVar(n, 0, 1))])), JVars(n, e, b))
ZIn(o) == <<JVar(NV, o.t, 1)>> \o Moved(NV, C.gx, At(C.xl, o.t), DAt(C.xl, o.t), o.e, 1) \o Moved(NV, C.gu, At(C.ul, o.t), DAt(C.ul, o.t), o.v, 1 + C.nx)
ZEnd(o) == <<JVar(NE, o.t, 1)>> \o JGMul(C.gx, JVec(NE, At(C.xl, 0)), JVars(NE, o.e, 1)) \o Moved(NE, C.gx, At(C.xl, o.t), DAt(C.xl, o.t), o.ef, 1 + C.nx) \o JVars(NE, o.q, 1 + 2 * C.nx)
\* dynamics: drexpinv(e) (f - dxl) + [e, dxl]
Dyn(o) ==
  LET z == ZIn(o)
      e == JVars(NV, o.e, 1)
      dx == JVec(NV, DAt(C.xl, o.t))
      w == TLCEval([j \in 1..C.nx |-> JSub(JPoly(NV, C.f[j], z), dx[j])])
  IN JVAdd(JDrInv(C.gx, e, w), JBracket(C.gx, e, dx))
Fn(o) == CASE o.fn = "g" -> C.g [] o.fn = "cr" -> C.cr [] o.fn = "theta" -> C.theta [] OTHER -> C.ce
Expect(o) ==
  IF o.fn = "f" THEN Dyn(o)
  ELSE IF o.fn \in {"g", "cr"} THEN LET z == ZIn(o) IN TLCEval([j \in DOMAIN Fn(o) |-> JPoly(NV, Fn(o)[j], z)])
  ELSE LET z == ZEnd(o) IN TLCEval([j \in DOMAIN Fn(o) |-> JPoly(NE, Fn(o)[j], z)])
Judge(o, r) ==
  IF o.fn = "sol" THEN
    Rule("unflattened state", r.x = Mul(C.gx, At(C.xl, o.t), o.e)) \o Rule("unflattened input", r.u = Mul(C.gu, At(C.ul, o.t), o.v)) \o
    Rule("unflattened constants", r.t0 = 1 /\ r.tf = 7 /\ r.Q = o.q /\ r.lq = [i \in 1..C.nq |-> 10 + i] /\ r.lce = [i \in 1..C.nce |-> 20 + i]) \o
    Rule("unflattened multipliers", r.ld = [i \in 1..C.nx |-> o.t + 30 + i] /\ r.lcr = [i \in 1..C.ncr |-> o.t + 40 + i])
  ELSE
  LET x == TLCEval(Expect(o))
      nf == Len(x)
      n == IF o.fn \in {"f", "g", "cr"} THEN NV ELSE NE
  IN Rule("value of " \o o.fn, r.v = [j \in 1..nf |-> x[j].v]) \o
     (IF o.od < 1 THEN <<>> ELSE IF Len(r.J) # nf \/ Len(r.J[1]) # n THEN <<"size of the Jacobian">> ELSE
      Rule("Jacobian of " \o o.fn, \A j \in 1..nf : \A c \in 1..n : r.J[j][c] = x[j].g[c])) \o
     (IF o.od < 2 THEN <<>> ELSE IF Len(r.H) # n \/ Len(r.H[1]) # nf * n THEN <<"size of the Hessian">> ELSE
      Rule("Hessian of " \o o.fn, \A j \in 1..nf : \A c \in 1..n : \A e \in 1..n : r.H[c][(j - 1) * n + e] = x[j].h[c][e])) \o
     Rule("numbers are finite integers", r.int = 1)
JudgeStart ==
  Rule("bounds", Tr.crl = C.crl /\ Tr.cru = C.cru /\ Tr.cel = C.cel /\ Tr.ceu = C.ceu) \o
  Rule("analytic derivatives exactly when the original has them", Tr.ana = IF C.form = 2 THEN 0 ELSE 1)

Init == idx \in 1..Len(Cases) /\ k = 0 /\ why = <<>>
Start == Tr.ev = "ok" /\ k = 0 /\ why = <<>> /\ why' = JudgeStart /\ k' = 1 /\ UNCHANGED idx
Oper == /\ Tr.ev = "ok" /\ k >= 1 /\ k <= Len(C.ops) /\ why = <<>>
        /\ why' = Judge(C.ops[k], Tr.res[k]) /\ k' = k + 1 /\ UNCHANGED idx
NoAnswer == /\ k = 0 /\ Tr.ev \in {"crash", "hang"}
            /\ why' = <<"every evaluation returns (no " \o Tr.ev \o ")">> /\ k' = -1 /\ UNCHANGED idx
Next == Start \/ Oper \/ NoAnswer
Spec == Init /\ [][Next]_vars
Conforms == why = <<>>
WellFormed == Len(Trace) = Len(Cases) /\ Tr.id = C.id
=============================================================================
