----------------------------- MODULE DynErrTrace ----------------------------
(* Relative dynamics errors.  Exact for degree one and two intervals, whose    *)
(* nodes are 0 and 0, 2/3: with f0, f1 the dynamics at the nodes and length h   *)
(* the estimates are x0 + h f0  resp.  x0 + h (f0 + f1) / 3, x0 + h (f0 + 3 f1) / 4 *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
VARIABLES idx, k, why
vars == <<idx, k, why>>
C == Cases[idx]
T == Trace[idx]
Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>
Abs(x) == IF x < 0 THEN -x ELSE x
Mx(a, b) == IF a > b THEN a ELSE b
S == 10000

(* table mode; components of the two-dimensional variant are 3v and 4v, so norms are 5|v| *)
Nrm == IF C.dim = 1 THEN 1 ELSE 5
X(s) == C.x[s + 1]
U(s) == C.u[s + 1]
F(s) == C.f[1] * (C.t0 + s) + C.f[2] * X(s) + C.f[3] * U(s) + C.f[4]
\* 12 * absolute errors of interval i (from 0) and the normalization
H == 3 * C.c
A(i) == i * H
E12(i) ==
  IF C.ks[i + 1] = 1 THEN 12 * Abs(X(A(i)) + H * F(A(i)) - X(A(i) + H))
  ELSE LET a == A(i)  b == A(i) + 2 * C.c IN
       Mx(Abs(12 * (X(a) - X(b)) + 4 * H * (F(a) + F(b))), Abs(12 * (X(a) - X(a + H)) + 3 * H * (F(a) + 3 * F(b))))
Den(i) == 1 + Nrm * (IF C.ks[i + 1] = 1 THEN Abs(X(A(i) + H)) ELSE Mx(Abs(X(A(i) + 2 * C.c)), Abs(X(A(i) + H))))
\* recorded error e (times S) against 12 e Den = E12
Table(i) == Abs(12 * Den(i) * T.e[i + 1] - Nrm * E12(i) * S) <= 12 * Den(i)

Bump(i) == LET len == C.tf - C.t0 IN
  Abs(C.n * (1 + Nrm * Abs(C.x0)) * T.e[i + 1] - (IF i = C.m THEN Nrm * Abs(C.B) * len * S ELSE 0)) <= C.n * (1 + Nrm * Abs(C.x0))

Judge ==
  Rule("one error per interval", Len(T.e) = C.n) \o
  Rule("errors are not negative", \A i \in DOMAIN T.e : T.e[i] >= 0) \o
  (IF Len(T.e) # C.n THEN <<>> ELSE
   CASE C.mode = "table" -> Rule("relative error of the interval", \A i \in 0..(C.n - 1) : Table(i))
     [] C.mode = "poly" -> Rule("no error for resolved trajectories", \A i \in DOMAIN T.e : T.e[i] = 0)
     [] OTHER -> Rule("error is attributed to the interval where it occurs", \A i \in 0..(C.n - 1) : Bump(i))) \o
  Rule("refinement keeps exactly the intervals within the tolerance", \A i \in DOMAIN T.kept : T.kept[i] = 2 \/ T.kept[i] = (IF T.above[i] = 1 THEN 0 ELSE 1))

Init == idx \in 1..Len(Cases) /\ k = 0 /\ why = <<>>
Next == \/ /\ k = 0 /\ T.ev = "ok" /\ why' = Judge /\ k' = 1 /\ UNCHANGED idx
        \/ /\ k = 0 /\ T.ev \in {"crash", "hang"} /\ why' = <<"an answer is returned (no " \o T.ev \o ")">> /\ k' = -1 /\ UNCHANGED idx
Spec == Init /\ [][Next]_vars
Conforms == why = <<>>
WellFormed == Len(Trace) = Len(Cases) /\ T.id = C.id
=============================================================================
