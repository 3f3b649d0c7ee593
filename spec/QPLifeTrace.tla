---------------------------- MODULE QPLifeTrace -----------------------------
(* Validates recorded histories of real QPSolver objects against QPLife.      *)
(* After every operation the record holds, per slot, the projection of sol(); *)
(* a solve also records its return value and the answer of the one-shot       *)
(* solve_qp to the same problem, parameters and warm start.                   *)
EXTENDS QPLife, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)

VARIABLES idx, k, why
vars == <<slot, idx, k, why>>

C == Cases[idx]
T == Trace[idx]

Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a > b THEN a ELSE b

\* same answer: verdict, iterations and values (units of 1/S with the same S up to 10^-6 relative)
CloseSeq(a, b, S) == /\ Len(a) = Len(b)
                     /\ \A j \in 1..Len(a) : Abs(a[j] - b[j]) <= 2 + S \div 100000 + MaxOf(Abs(a[j]), Abs(b[j])) \div 100000
SameAnswer(a, b) == /\ a.code = b.code /\ a.iter = b.iter /\ a.fin = b.fin /\ a.S = b.S
                    /\ CloseSeq(a.x, b.x, a.S) /\ CloseSeq(a.y, b.y, a.S)
Identical(a, b) == a.code = b.code /\ a.iter = b.iter /\ a.h1 = b.h1 /\ a.h2 = b.h2

JudgeSolve(o, r) ==
  IF o.a # "solve" THEN <<>> ELSE
  Rule("solve gives the answer of a fresh solver", SameAnswer(r.ret, r.fresh)) \o
  Rule("solve returns what sol() shows", Identical(r.ret, r.sol[o.s]))

\* every live solver that has solved shows the result of its most recent solve
JudgeSols(o, r, new) ==
  Rule("sol() is the most recent result of every solver",
       \A s \in SlotIds : new[s].alive /\ new[s].last > 0 =>
          Identical(r.sol[s], IF new[s].last = k THEN r.ret ELSE T.res[new[s].last].ret))

Init == idx \in 1..Len(Cases) /\ k = 1 /\ slot = InitSlots /\ why = <<>>

Step ==
  /\ T.ev = "ok" /\ k <= Len(C.ops) /\ why = <<>>
  /\ Enabled(C.ops[k]) = TRUE
  /\ slot' = Effect(C.ops[k], k)
  /\ why' = JudgeSolve(C.ops[k], T.res[k]) \o JudgeSols(C.ops[k], T.res[k], slot')
  /\ k' = k + 1
  /\ UNCHANGED idx

NoAnswer ==
  /\ k = 1 /\ T.ev \in {"crash", "hang"}
  /\ why' = <<"every operation returns (no " \o T.ev \o ")">>
  /\ k' = -1
  /\ UNCHANGED <<idx, slot>>

Next == Step \/ NoAnswer
Spec == Init /\ [][Next]_vars

Conforms == why = <<>>
WellFormed == /\ Len(Trace) = Len(Cases) /\ T.id = C.id
              /\ (T.ev = "ok" /\ k >= 1 /\ k <= Len(C.ops)) => Enabled(C.ops[k])
=============================================================================
