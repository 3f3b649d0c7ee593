----------------------------- MODULE MeshModel ------------------------------
(* Refinable mesh of [0, 1]: a sequence of intervals [k, a, b] with rational  *)
(* end points <<num, den>> and k collocation points.                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Red(q) == LET g == Gcd(Abs(q[1]), q[2]) IN <<q[1] \div g, q[2] \div g>>
\* p + m * (q - p) / n for rationals p, q
Between(p, q, m, n) == Red(<<p[1] * q[2] * (n - m) + q[1] * p[2] * m, p[2] * q[2] * n>>)
Less(p, q) == p[1] * q[2] < q[1] * p[2]

New(n, k) == LET c == Mx(n, 1) IN [i \in 1..c |-> [k |-> k, a |-> Red(<<i - 1, c>>), b |-> Red(<<i, c>>)]]

Split(ms, i, n, kmin) ==
  SubSeq(ms, 1, i - 1)
    \o [j \in 1..n |-> [k |-> kmin, a |-> Between(ms[i].a, ms[i].b, j - 1, n), b |-> Between(ms[i].a, ms[i].b, j, n)]]
    \o SubSeq(ms, i + 1, Len(ms))

\* i counts from 1
RefinePh(ms, i, d, kmin, kmax) ==
  IF d > kmax \/ ms[i].k > kmax THEN Split(ms, i, Mx(2, (d + kmin - 1) \div kmin), kmin)
  ELSE IF d < ms[i].k THEN ms
  ELSE [ms EXCEPT ![i].k = d]

\* smallest m with r^2 < base^(2m+1), i.e. log(r) / log(base) rounded to the nearest integer
RECURSIVE RoundLog(_, _, _, _)
RoundLog(r2, base, pw, m) == IF pw > r2 THEN m ELSE IF pw > r2 \div (base * base) THEN m + 1 ELSE RoundLog(r2, base, pw * base * base, m + 1)
\* target degree of an interval whose error is r times the tolerance
Target(k, r) == LET b == Mx(k, 2) IN k + RoundLog(r * r, b, b, 0) + 1
\* errors: sequence of integers r (error = r * tolerance; r <= 1: no refinement); all decisions refer to the mesh before the call
RECURSIVE RefineErr(_, _, _, _, _)
RefineErr(ms, es, i, kmin, kmax) ==
  IF i = 0 THEN ms
  ELSE RefineErr(IF es[i] > 1 THEN RefinePh(ms, i, Target(ms[i].k, es[i]), kmin, kmax) ELSE ms, es, i - 1, kmin, kmax)

Inc(ms, kmax) == [i \in DOMAIN ms |-> [ms[i] EXCEPT !.k = Mn(@ + 1, kmax + 1)]]
Dec(ms, kmin) == [i \in DOMAIN ms |-> [ms[i] EXCEPT !.k = Mx(@ - 1, kmin)]]
SetK(ms, i, k) == [ms EXCEPT ![i].k = k]

RECURSIVE SumK(_, _)
SumK(ms, n) == IF n = 0 THEN 0 ELSE ms[n].k + SumK(ms, n - 1)
Colloc(ms) == SumK(ms, Len(ms))

Partition(ms) ==
  /\ Len(ms) >= 1 /\ ms[1].a = <<0, 1>> /\ ms[Len(ms)].b = <<1, 1>>
  /\ \A i \in DOMAIN ms : Less(ms[i].a, ms[i].b)
  /\ \A i \in 1..(Len(ms) - 1) : ms[i].b = ms[i + 1].a
Degrees(ms, kmin, kmax) == \A i \in DOMAIN ms : ms[i].k \in kmin..(kmax + 1)
=============================================================================
