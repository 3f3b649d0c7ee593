----------------------------- MODULE TimeTrace ------------------------------
(* An abstract clock: the instant moves by exactly the increments, each        *)
(* rounded to the resolution of the type; differences between any two reached  *)
(* instants are exact.                                                         *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
VARIABLES idx, k, now, why
vars == <<idx, k, now, why>>
C == Cases[idx]
T == Trace[idx]
G == 1000000000
Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>

Norm(s, n) == <<s + (n \div G), n % G>>
Plus(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Neg(a) == Norm(-a[1], -a[2])
Minus(a, b) == Plus(a, Neg(b))
Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
\* |a| <= <<s, n>>
Within(a, tol) == Le(a, tol) /\ Le(Neg(tol), a)
Fp == 100   \* nanoseconds of floating point slack
Tol(extra) == Plus(C.res, <<0, extra>>)

\* r.t: times after the increment, r.d[j]: minus(now, time j) and r.e[j]: minus(time j, now) for all earlier times j = 0..k-1
Judge(r, ts) ==
  Rule("plus advances by the increment up to the resolution", Within(Minus(Minus(r.t, now), C.inc[k]), Tol(Fp))) \o
  Rule("minus of plus gives the increment back", Within(Minus(r.d[k], C.inc[k]), Tol(Fp))) \o
  Rule("minus is the difference in seconds", \A j \in 1..k : Within(Minus(r.d[j], Minus(r.t, ts[j])), <<0, Fp>>)) \o
  Rule("minus is antisymmetric", \A j \in 1..k : Within(Plus(r.d[j], r.e[j]), <<0, Fp>>)) \o
  Rule("minus of a time with itself is zero", r.z = <<0, 0>>)

Times(n) == [j \in 1..n |-> IF j = 1 THEN C.t0 ELSE T.res[j - 1].t]

Init == idx \in 1..Len(Cases) /\ k = 1 /\ now = C.t0 /\ why = <<>>
Advance == /\ T.ev = "ok" /\ k >= 1 /\ k <= Len(C.inc) /\ why = <<>>
           /\ why' = (IF k = 1 THEN Rule("instants are represented exactly", T.t0 = C.t0) ELSE <<>>) \o Judge(T.res[k], Times(k))
           /\ now' = T.res[k].t /\ k' = k + 1 /\ UNCHANGED idx
NoAnswer == /\ k = 1 /\ T.ev \in {"crash", "hang"}
            /\ why' = <<"every operation returns (no " \o T.ev \o ")">> /\ k' = -1 /\ UNCHANGED <<idx, now>>
Next == Advance \/ NoAnswer
Spec == Init /\ [][Next]_vars
Conforms == why = <<>>
WellFormed == Len(Trace) = Len(Cases) /\ T.id = C.id
=============================================================================
