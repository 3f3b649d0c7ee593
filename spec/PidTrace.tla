------------------------------ MODULE PidTrace ------------------------------
(* State machine of two PID controllers; every returned input is the           *)
(* documented function of the call history.  Integral in quarters.             *)
EXTENDS LieModel, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
VARIABLES idx, k, now, pid, why
vars == <<idx, k, now, pid, why>>
C == Cases[idx]
T == Trace[idx]
N == LDim(C.g)
Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>
Ones(n, c) == [j \in 1..n |-> c]
Fresh(c, n, s) == [kp |-> Ones(n, 1), kd |-> Ones(n, 1), ki |-> Ones(n, 0), ie |-> VZero(n), started |-> FALSE, last |-> 0,
                wl |-> c.wl[s], tr |-> [kind |-> -1]]

\* desired <<position, velocity, acceleration>> at t (quarters)
Desired(tr, t) ==
  CASE tr.kind = -1 -> <<VZero(N), VZero(N), VZero(N)>>
    [] tr.kind = 0 -> <<tr.g0, VZero(N), VZero(N)>>
    [] tr.kind = 1 -> <<VAdd(tr.g0, VScale(t, tr.g1)), VAdd(tr.v0, VScale(t, tr.v1)), tr.a0>>
    [] OTHER -> LET s == t - tr.ts IN   \* spline 4 b s/4 + 16 c (s/4)^2 in seconds
         <<VAdd(VScale(s, tr.b), VScale(s * s, tr.c)), VAdd(VScale(4, tr.b), VScale(8 * s, tr.c)), VScale(32, tr.c)>>
Clamp(v, w) == IF w < 0 THEN v ELSE [j \in DOMAIN v |-> IF v[j] > w THEN w ELSE IF v[j] < -w THEN -w ELSE v[j]]

Err(p, o, t) == Minus(C.g, Desired(p.tr, t)[1], o.x)
Integral(p, o, t) == IF p.started /\ t > p.last THEN Clamp(VAdd(p.ie, VScale(t - p.last, Err(p, o, t))), p.wl) ELSE p.ie
After(p, o, t) ==
  CASE o.o = "call" -> [p EXCEPT !.ie = Integral(p, o, t), !.started = TRUE, !.last = t]
    [] o.o = "kp" -> [p EXCEPT !.kp = IF o.vec = 1 THEN o.gain ELSE Ones(N, o.gain[1])]
    [] o.o = "kd" -> [p EXCEPT !.kd = IF o.vec = 1 THEN o.gain ELSE Ones(N, o.gain[1])]
    [] o.o = "ki" -> [p EXCEPT !.ki = IF o.vec = 1 THEN o.gain ELSE Ones(N, o.gain[1])]
    [] o.o = "reset" -> [p EXCEPT !.ie = VZero(N)]
    [] o.o = "xdes" -> [p EXCEPT !.tr = [kind |-> o.kind, g0 |-> o.g0, g1 |-> o.g1, v0 |-> o.v0, v1 |-> o.v1, a0 |-> o.a0, b |-> o.b, c |-> o.c, ts |-> t]]
    [] OTHER -> p
\* four times the input
Input4(p, o, t) ==
  LET d == Desired(p.tr, t)  e == Err(p, o, t)  ie == Integral(p, o, t) IN
  [j \in 1..N |-> 4 * (d[3][j] + p.kp[j] * e[j] + p.kd[j] * (d[2][j] - o.v[j])) + p.ki[j] * ie[j]]

Judge(p, o, t, r) ==
  IF o.o = "call" THEN Rule("input is feedforward plus gains times errors", Len(r) = N /\ \A j \in 1..N : LET w == Input4(p, o, t)[j] IN r[j] \in (100 * w - 1)..(100 * w + 1))
  ELSE <<>>

Init == /\ idx \in 1..Len(Cases) /\ k = 1 /\ now = Cases[idx].t0 /\ why = <<>>
        /\ pid = <<Fresh(Cases[idx], LDim(Cases[idx].g), 1), Fresh(Cases[idx], LDim(Cases[idx].g), 2)>>
Oper == /\ T.ev = "ok" /\ k >= 1 /\ k <= Len(C.ops) /\ why = <<>>
        /\ LET o == C.ops[k]  s == o.sl + 1  t == now + o.dt IN
             /\ now' = t
             /\ pid' = (IF o.o = "copy" THEN [pid EXCEPT ![2 - o.sl] = pid[s]] ELSE [pid EXCEPT ![s] = After(pid[s], o, t)])
             /\ why' = Judge(pid[s], o, t, T.res[k])
        /\ k' = k + 1 /\ UNCHANGED idx
NoAnswer == /\ k = 1 /\ T.ev \in {"crash", "hang"}
            /\ why' = <<"every operation returns (no " \o T.ev \o ")">> /\ k' = -1 /\ UNCHANGED <<idx, now, pid>>
Next == Oper \/ NoAnswer
Spec == Init /\ [][Next]_vars
Conforms == why = <<>>
WellFormed == Len(Trace) = Len(Cases) /\ T.id = C.id
IntegralBounded == \A s \in 1..2 : pid[s].wl >= 0 => \A j \in DOMAIN pid[s].ie : pid[s].ie[j] \in (-pid[s].wl)..(pid[s].wl)
=============================================================================
