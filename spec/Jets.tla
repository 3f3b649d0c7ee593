------------------------------- MODULE Jets ---------------------------------
(* Exact second-order Taylor arithmetic over the integers: a jet is a value,   *)
(* its gradient and its Hessian with respect to n variables.                   *)
EXTENDS Integers, Sequences, TLC
JConst(n, c) == TLCEval([v |-> c, g |-> [i \in 1..n |-> 0], h |-> [i \in 1..n |-> [j \in 1..n |-> 0]]])
JVar(n, c, k) == TLCEval([v |-> c, g |-> [i \in 1..n |-> IF i = k THEN 1 ELSE 0], h |-> [i \in 1..n |-> [j \in 1..n |-> 0]]])
JAdd(a, b) == TLCEval([v |-> a.v + b.v, g |-> [i \in DOMAIN a.g |-> a.g[i] + b.g[i]], h |-> [i \in DOMAIN a.g |-> [j \in DOMAIN a.g |-> a.h[i][j] + b.h[i][j]]]])
JScale(c, a) == TLCEval([v |-> c * a.v, g |-> [i \in DOMAIN a.g |-> c * a.g[i]], h |-> [i \in DOMAIN a.g |-> [j \in DOMAIN a.g |-> c * a.h[i][j]]]])
JSub(a, b) == JAdd(a, JScale(-1, b))
JMul(a, b) == TLCEval([v |-> a.v * b.v, g |-> [i \in DOMAIN a.g |-> a.v * b.g[i] + b.v * a.g[i]],
  h |-> [i \in DOMAIN a.g |-> [j \in DOMAIN a.g |-> a.v * b.h[i][j] + b.v * a.h[i][j] + a.g[i] * b.g[j] + b.g[i] * a.g[j]]]])
\* division of a jet whose parts are multiples of c
JDiv(a, c) == TLCEval([v |-> a.v \div c, g |-> [i \in DOMAIN a.g |-> a.g[i] \div c], h |-> [i \in DOMAIN a.g |-> [j \in DOMAIN a.g |-> a.h[i][j] \div c]]])

(* vectors of jets *)
JVAdd(a, b) == TLCEval([i \in DOMAIN a |-> JAdd(a[i], b[i])])
JVScale(c, a) == TLCEval([i \in DOMAIN a |-> JScale(c, a[i])])
JVDiv(a, c) == TLCEval([i \in DOMAIN a |-> JDiv(a[i], c)])
JDet(a, b, i, j) == JSub(JMul(a[i], b[j]), JMul(a[j], b[i]))
\* the groups of LieModel
JBracket(gr, a, b) ==
  LET zero == JScale(0, a[1]) IN
  CASE gr = "H" -> <<zero, zero, JScale(2, JDet(a, b, 1, 2))>>
    [] gr = "F" -> <<zero, zero, JScale(6, JDet(a, b, 1, 2)), JScale(2, JDet(a, b, 1, 3))>>
    [] OTHER -> [i \in DOMAIN a |-> zero]
\* exp(a) exp(b)
JGMul(gr, a, b) ==
  IF ~(gr \in {"H", "F"}) THEN JVAdd(a, b)
  ELSE LET ab == JBracket(gr, a, b)
           s == JVAdd(JVAdd(a, b), JVDiv(ab, 2))
       IN IF gr = "H" THEN s ELSE JVAdd(s, JVDiv(JVAdd(JBracket(gr, a, ab), JVScale(-1, JBracket(gr, b, ab))), 12))
\* inverse of the right derivative of the exponential at a, applied to b
JDrInv(gr, a, b) ==
  IF ~(gr \in {"H", "F"}) THEN b
  ELSE LET ab == JBracket(gr, a, b) IN JVAdd(JVAdd(b, JVDiv(ab, 2)), IF gr = "H" THEN JVScale(0, b) ELSE JVDiv(JBracket(gr, a, ab), 12))
\* polynomial c + l.z + z.Q.z
JPoly(n, f, z) ==
  LET RECURSIVE L(_)
      L(a) == IF a = 0 THEN JConst(n, f.c) ELSE IF f.l[a] = 0 THEN L(a - 1) ELSE JAdd(L(a - 1), JScale(f.l[a], z[a]))
      RECURSIVE Q(_, _)
      Q(a, b) == IF a = 0 THEN L(Len(z)) ELSE IF b = 0 THEN Q(a - 1, Len(z)) ELSE IF f.q[a][b] = 0 THEN Q(a, b - 1) ELSE JAdd(Q(a, b - 1), JScale(f.q[a][b], JMul(z[a], z[b])))
  IN Q(Len(z), Len(z))
=============================================================================
