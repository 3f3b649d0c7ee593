---------------------------- MODULE OcpSolTrace ----------------------------
(* Conversions between solutions of an optimal control problem and of its      *)
(* nonlinear program.  Trajectories interpolate the node values: states by the *)
(* polynomial through the nodes of an interval and the start of the next one,  *)
(* inputs and multipliers likewise but by the nodes alone in the last interval.*)
(* Numbers times E = 162 sc^2 are integers.                                    *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
VARIABLES idx, k, why
vars == <<idx, k, why>>
C == Cases[idx]
Tr == Trace[idx]
Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Tf == 36
U(m) == SumTo(m.len, Len(m.len))
Sc(m) == Tf \div (3 * U(m))
N(m) == SumTo(m.k, Len(m.k))
First(m, i) == 1 + SumTo(m.k, i - 1)
Start(m, i) == 3 * Sc(m) * SumTo(m.len, i - 1)
H(m, i) == 3 * Sc(m) * m.len[i]
\* times of the nodes
RECURSIVE NodeTimes(_, _)
NodeTimes(m, i) ==
  IF i > Len(m.k) THEN <<>> ELSE (IF m.k[i] = 1 THEN <<Start(m, i)>> ELSE <<Start(m, i), Start(m, i) + 2 * Sc(m) * m.len[i]>>) \o NodeTimes(m, i + 1)
E == 162 * Sc(C.mesh) * Sc(C.mesh)
\* an interval that contains t, two at a seam (where both agree)
Ival(m, t) == CHOOSE i \in DOMAIN m.k : Start(m, i) <= t /\ t <= Start(m, i) + H(m, i)
\* E times the value at t, v the node values
Eval(m, v, t, ext) ==
  LET i == Ival(m, t)
      h == H(m, i)
      p == t - Start(m, i)
      a == First(m, i)
      u == E \div (2 * h * h)
      last == i = Len(m.k) /\ ~ext
      W(j) == IF m.k[i] = 1 THEN (IF last THEN 2 * h * h ELSE IF j = 0 THEN 2 * h * (h - p) ELSE 2 * h * p)
              ELSE IF last THEN (IF j = 0 THEN h * (2 * h - 3 * p) ELSE 3 * h * p)
              ELSE IF j = 0 THEN (3 * p - 2 * h) * (p - h) ELSE IF j = 1 THEN -9 * p * (p - h) ELSE 2 * p * (3 * p - 2 * h)
      cnt == IF last THEN m.k[i] ELSE m.k[i] + 1
  IN [c \in DOMAIN v[1] |-> SumTo([j \in 1..cnt |-> u * W(j - 1) * v[a + j - 1][c]], cnt)]
Scale(v) == [c \in DOMAIN v |-> E * v[c]]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
\* the vectors of the nonlinear program on mesh m
XOf(m) == LET nt == NodeTimes(m, 1) IN
  <<E * Tf>> \o Scale(C.q) \o Flat([n \in 1..(N(m) + 1) |-> Eval(C.mesh, C.x, (nt \o <<Tf>>)[n], TRUE)]) \o Flat([n \in 1..N(m) |-> Eval(C.mesh, C.u, nt[n], FALSE)])
LOf(m) == LET nt == NodeTimes(m, 1) IN
  Flat([n \in 1..N(m) |-> Eval(C.mesh, C.ld, nt[n], FALSE)]) \o Scale(C.lq) \o Flat([n \in 1..N(m) |-> Eval(C.mesh, C.lcr, nt[n], FALSE)]) \o Scale(C.lce)
Zero(z, n) == Len(z) = n /\ \A c \in 1..n : z[c] = 0

Judge ==
  Rule("times", Tr.t0 = 0 /\ Tr.tf = E * Tf) \o
  Rule("integrals and their multipliers", Tr.Q = Scale(C.q) /\ Tr.lq = Scale(C.lq)) \o
  Rule("end constraint multipliers", Tr.lce = Scale(C.lce)) \o
  Rule("state trajectory", \A n \in DOMAIN C.at : Tr.at[n].x = Eval(C.mesh, C.x, C.at[n], TRUE)) \o
  Rule("input trajectory", \A n \in DOMAIN C.at : Tr.at[n].u = Eval(C.mesh, C.u, C.at[n], FALSE)) \o
  Rule("dynamics multiplier trajectory", \A n \in DOMAIN C.at : Tr.at[n].ld = Eval(C.mesh, C.ld, C.at[n], FALSE)) \o
  Rule("running constraint multiplier trajectory", \A n \in DOMAIN C.at : Tr.at[n].lcr = Eval(C.mesh, C.lcr, C.at[n], FALSE)) \o
  \* back onto the same mesh: the original; onto another: sampled
  Rule("variables after a round trip", Tr.same.x = Scale(<<Tf>> \o C.q \o Flat(C.x) \o Flat(C.u))) \o
  Rule("multipliers after a round trip", Tr.same.lam = Scale(Flat(C.ld) \o C.lq \o Flat(C.lcr) \o C.lce)) \o
  Rule("variables on another mesh", Tr.other.x = XOf(C.mesh2)) \o
  Rule("multipliers on another mesh", Tr.other.lam = LOf(C.mesh2)) \o
  Rule("no variable bound multipliers", Zero(Tr.same.zl, Len(Tr.same.x)) /\ Zero(Tr.same.zu, Len(Tr.same.x)) /\ Zero(Tr.other.zl, Len(Tr.other.x)) /\ Zero(Tr.other.zu, Len(Tr.other.x))) \o
  Rule("the status of a converted solution is unknown", Tr.same.status = 4 /\ Tr.other.status = 4) \o
  Rule("numbers are finite and multiples of the unit", Tr.int = 1)

Init == idx \in 1..Len(Cases) /\ k = 0 /\ why = <<>>
Answer == Tr.ev = "ok" /\ k = 0 /\ why' = Judge /\ k' = 1 /\ UNCHANGED idx
NoAnswer == /\ k = 0 /\ Tr.ev \in {"crash", "hang"}
            /\ why' = <<"every conversion returns (no " \o Tr.ev \o ")">> /\ k' = -1 /\ UNCHANGED idx
Next == Answer \/ NoAnswer
Spec == Init /\ [][Next]_vars
Conforms == why = <<>>
WellFormed == Len(Trace) = Len(Cases) /\ Tr.id = C.id
=============================================================================
