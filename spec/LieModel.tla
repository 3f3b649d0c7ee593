----------------------------- MODULE LieModel -------------------------------
(* The groups of the conformance harness in logarithmic coordinates, over the  *)
(* integers: "R1".."R4": vectors, "H": Heisenberg group [e1,e2] = 2 e3,        *)
(* "F": filiform group [e1,e2] = 6 e3, [e1,e3] = 2 e4.  Products by the finite *)
(* Baker-Campbell-Hausdorff series.                                            *)
EXTENDS Integers, Sequences, TLC

LDim(g) == CASE g = "R1" -> 1 [] g = "R2" -> 2 [] g = "R3" -> 3 [] g = "R4" -> 4 [] g = "H" -> 3 [] g = "F" -> 4
VAdd(a, b) == TLCEval([i \in DOMAIN a |-> a[i] + b[i]])
VSub(a, b) == TLCEval([i \in DOMAIN a |-> a[i] - b[i]])
VScale(c, a) == TLCEval([i \in DOMAIN a |-> c * a[i]])
VNeg(a) == VScale(-1, a)
VZero(n) == TLCEval([i \in 1..n |-> 0])
VDot(a, b) == LET RECURSIVE D(_)
                  D(n) == IF n = 0 THEN 0 ELSE a[n] * b[n] + D(n - 1)
              IN D(Len(a))

Bracket(g, a, b) ==
  CASE g = "H" -> <<0, 0, 2 * (a[1] * b[2] - a[2] * b[1])>>
    [] g = "F" -> <<0, 0, 6 * (a[1] * b[2] - a[2] * b[1]), 2 * (a[1] * b[3] - a[3] * b[1])>>
    [] OTHER -> VZero(Len(a))
DivExact(a, n) == TLCEval([i \in DOMAIN a |-> a[i] \div n])
Mul(g, a, b) ==
  LET ab == Bracket(g, a, b)
      t  == VAdd(Bracket(g, a, ab), VNeg(Bracket(g, b, ab)))
  IN VAdd(VAdd(VAdd(a, b), DivExact(ab, 2)), DivExact(t, 12))
\* x [-] y : tangent a with y exp(a) = x
Minus(g, x, y) == Mul(g, VNeg(y), x)
Plus(g, x, a) == Mul(g, x, a)
Unit(n, i) == TLCEval([j \in 1..n |-> IF j = i THEN 1 ELSE 0])
\* columns: ad(a) e_i
AdCol(g, a, i) == Bracket(g, a, Unit(Len(a), i))
\* derivative of the coordinates of x along x exp(e_i): dr_expinv(x) e_i
DrInvCol(g, x, i) ==
  LET e == Unit(Len(x), i)  b == Bracket(g, x, e) IN VAdd(VAdd(e, DivExact(b, 2)), DivExact(Bracket(g, x, b), 12))

\* matrices as sequences of rows
MatMul(a, b) == TLCEval([i \in 1..Len(a) |-> TLCEval([j \in 1..Len(b[1]) |->
   LET RECURSIVE D(_)
       D(n) == IF n = 0 THEN 0 ELSE a[i][n] * b[n][j] + D(n - 1)
   IN D(Len(b))])])
MatVec(a, v) == TLCEval([i \in 1..Len(a) |-> VDot(a[i], v)])
MatT(a) == TLCEval([j \in 1..Len(a[1]) |-> TLCEval([i \in 1..Len(a) |-> a[i][j]])])
MatAdd(a, b) == TLCEval([i \in 1..Len(a) |-> TLCEval([j \in 1..Len(a[1]) |-> a[i][j] + b[i][j]])])
MatScale(c, a) == TLCEval([i \in 1..Len(a) |-> TLCEval([j \in 1..Len(a[1]) |-> c * a[i][j]])])
MatId(n) == TLCEval([i \in 1..n |-> Unit(n, i)])
FromCols(n, f(_)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> f(j)[i]])])
AdMat(g, a) == FromCols(Len(a), LAMBDA j : AdCol(g, a, j))
DrInv(g, x) == FromCols(Len(x), LAMBDA j : DrInvCol(g, x, j))
=============================================================================
