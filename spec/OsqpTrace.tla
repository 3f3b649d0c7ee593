----------------------------- MODULE OsqpTrace ------------------------------
(* The protocol of the OSQP interface as a state machine: blocks obtained and  *)
(* released, a workspace that a failed setup leaves untouched or partial, and  *)
(* the calls legal in each state; and what the adapter has to hand over and    *)
(* to report.  Numbers are multiples of 1/1024.                                *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
U == 1024
VARIABLES idx, k, blocks, work, ws, rc, started, why
vars == <<idx, k, blocks, work, ws, rc, started, why>>
C == Cases[idx]
T == Trace[idx]
Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>
Sc(s) == [a \in DOMAIN s |-> U * s[a]]
Mat(M) == [a \in DOMAIN M |-> Sc(M[a])]
Upper(M) == [a \in DOMAIN M |-> [b \in DOMAIN M[a] |-> IF a <= b THEN U * M[a][b] ELSE 0]]

\* a problem and settings handed to setup
JudgeSetup(e) ==
  LET p == C.prm  s == e.set IN
  Rule("OSQP matrices are well-formed (upper triangular, ordered, compressed)", e.form = 1) \o
  Rule("OSQP gets exactly the problem", e.n = C.n /\ e.m = C.m /\ e.P = Upper(C.P) /\ e.A = Mat(C.A) /\ e.q = Sc(C.q) /\ e.l = Sc(C.l) /\ e.u = Sc(C.u)) \o
  Rule("OSQP gets exactly the settings",
       /\ s.rho = p.rho /\ s.sigma = p.sigma /\ s.alpha = p.alpha /\ s.eps_abs = p.eps_abs /\ s.eps_rel = p.eps_rel /\ s.eps_pi = p.eps_pi /\ s.eps_di = p.eps_di
       /\ s.delta = p.delta /\ s.check = p.check /\ s.polish = p.polish /\ s.refine = p.refine /\ s.scaling = p.scaling /\ s.verbose = p.verbose /\ s.scaled = 0) \o
  Rule("iteration and time limits are handed over", s.iter = p.iter /\ (IF p.time < 0 THEN s.lim = 0 ELSE s.lim = 1 /\ s.time \in (p.time - 1)..(p.time + 1)))

Init == idx \in 1..Len(Cases) /\ k = 1 /\ blocks = {} /\ work = 0 /\ ws = "none" /\ rc = 0 /\ started = FALSE /\ why = <<>>
E == T.events[k]
Active == T.ev = "ok" /\ k >= 1 /\ k <= Len(T.events) /\ why = <<>>
Malloc == Active /\ E.e = "malloc" /\ blocks' = blocks \cup {E.w} /\ UNCHANGED <<work, ws, rc, started, why>>
Free == Active /\ E.e = "free" /\ blocks' = blocks \ {E.w}
        /\ why' = Rule("only held memory is released, once", E.w \in blocks) /\ UNCHANGED <<work, ws, rc, started>>
Setup == Active /\ E.e = "setup" /\ why' = Rule("one workspace at a time", ws = "none") \o JudgeSetup(E)
         /\ work' = E.w /\ ws' = (IF E.rc = 0 THEN "ready" ELSE IF E.w = 0 THEN "failed" ELSE "partial") /\ UNCHANGED <<blocks, rc, started>>
Warm == Active /\ E.e = "warm"
        /\ why' = (Rule("warm start only after a successful setup and before solving", ws = "ready" /\ E.w = work) \o
                   IF ws = "ready" /\ E.w = work THEN Rule("the given start is handed over", C.warm = 1 /\ E.x = Sc(C.wx) /\ E.y = Sc(C.wy)) ELSE <<>>)
        /\ started' = TRUE /\ UNCHANGED <<blocks, work, ws, rc>>
Solve == Active /\ E.e = "solve" /\ why' = (Rule("solve only after a successful setup", ws = "ready" /\ E.w = work) \o Rule("a given warm start is used", started <=> C.warm = 1))
         /\ ws' = "solved" /\ rc' = C.script.ret /\ UNCHANGED <<blocks, work, started>>
Cleanup == Active /\ E.e = "cleanup" /\ why' = Rule("only an existing workspace is cleaned up, once", E.w = 0 \/ (E.w = work /\ ws \in {"ready", "partial", "solved"}))
           /\ ws' = (IF E.w = 0 THEN ws ELSE "clean:" \o ws) /\ UNCHANGED <<blocks, work, rc, started>>
Code(st) == CASE st = 1 -> "Optimal" [] st = -3 -> "PrimalInfeasible" [] st = -4 -> "DualInfeasible" [] st = -2 -> "MaxIterations" [] st = -6 -> "MaxTime" [] OTHER -> "Unknown"
Finish ==
  /\ T.ev = "ok" /\ k = Len(T.events) + 1 /\ why = <<>>
  /\ why' = Rule("nothing is leaked", T.left = 0 /\ blocks = {} /\ ws \in {"failed", "clean:ready", "clean:partial", "clean:solved"}) \o
            (IF ws = "clean:solved" /\ rc = 0
             THEN Rule("exit code is OSQP's", T.ans.code = Code(C.script.status)) \o
                  Rule("solution is OSQP's", T.ans.full = 1 /\ T.ans.x = Sc(C.script.x) /\ T.ans.y = Sc(C.script.y) /\ T.ans.obj = U * C.script.obj /\ T.ans.iter = C.script.iter)
             ELSE Rule("a failure of OSQP is reported as Unknown", T.ans.code = "Unknown") \o Rule("a problem OSQP accepts is solved", ws # "clean:ready"))
  /\ k' = -1 /\ UNCHANGED <<idx, blocks, work, ws, rc, started>>
NoAnswer == /\ k = 1 /\ T.ev \in {"crash", "hang"}
            /\ why' = <<"every call returns (no " \o T.ev \o ")">> /\ k' = -1 /\ UNCHANGED <<idx, blocks, work, ws, rc, started>>
Step == (Malloc \/ Free \/ Setup \/ Warm \/ Solve \/ Cleanup) /\ k' = k + 1 /\ UNCHANGED idx
Next == Step \/ Finish \/ NoAnswer
Spec == Init /\ [][Next]_vars
Conforms == why = <<>>
WellFormed == Len(Trace) = Len(Cases) /\ T.id = C.id
=============================================================================
