------------------------------ MODULE QPTrace -------------------------------
(* Trace specification of the QP solver: every recorded solver run must be a  *)
(* behaviour of the abstract solver, whose answer to a problem is determined  *)
(* by the exact integer theory in QPMath.                                     *)
(* One behaviour per recorded case: first the abstract solver classifies the  *)
(* problem, then each recorded run is consumed by one Solve step that is      *)
(* judged by the rules of property Prop.  `why` collects broken rules.        *)
EXTENDS QPMath, Json, IOUtils, TLC, SequencesExt

CONSTANTS Prop

Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)

VARIABLES idx, k, cls, nondeg, why

vars == <<idx, k, cls, nondeg, why>>

C == Cases[idx]
T == Trace[idx]
P0 == C.p

HasWitness == "wit" \in DOMAIN C
ClassOf == IF HasWitness THEN WitnessClass(P0, C.wit) ELSE Class(P0)

StrictP == IF HasWitness THEN HasIdentity(P0) ELSE Strict(P0)

OK == 0
PolishFailed == 1
PInf == 2
DInf == 3
MaxIt == 4
MaxTm == 5

\* tolerance exponent -> parts per million
Ppm(e) == CASE e = 0 -> 0 [] e = 3 -> 1000 [] e = 4 -> 100 [] e = 5 -> 10 [] e = 6 -> 1 [] OTHER -> 1000

Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>

Solved(r) == r.code \in {OK, PolishFailed}

\* the answers allowed for a problem of class c when nothing limits the solver
Allowed(c, run) ==
  CASE c = "solvable" -> IF run.polish = 1 THEN {OK, PolishFailed} ELSE {OK}
    [] c = "unbounded" -> {DInf}
    [] c = "infeasible" -> {PInf}
    [] c = "infeasible-ray" -> {PInf, DInf}

KKT(r, ea, er) ==
  Rule("answer is finite (below 10^8) and has the right dimensions", r.fin = 1) \o
  (IF r.fin = 0 THEN <<>> ELSE
   Rule("primal constraints hold", PrimalOK(P0, r.x, r.S, ea, er)) \o
   Rule("stationarity holds", DualOK(P0, r.x, r.y, r.S, ea, er)) \o
   Rule("multipliers are signed and complementary", ComplOK(P0, r.x, r.y, r.S, ea, er)) \o
   Rule("objective is the value at the returned point", ObjectiveOK(P0, r.xo, r.vo, r.So)))

Same(a, b) == a.code = b.code /\ a.iter = b.iter /\ a.h1 = b.h1 /\ a.h2 = b.h2

-----------------------------------------------------------------------------
(* Certificates of infeasibility are accepted within a tolerance, so a false   *)
(* one can be met by chance on problems with large solutions.  It is excused   *)
(* if the problem admits that and if it disappears when the tolerance of the   *)
(* certificate is tightened (r.tc: verdict of the repeated run).               *)
Excused(r) ==
  \/ r.code = PInf /\ r.tc # PInf /\ cls \in {"solvable", "unbounded"} /\ (HasWitness \/ ~RobustlyFeasible(P0))
  \/ r.code = DInf /\ r.tc # DInf /\ cls \in {"solvable", "infeasible"} /\ (HasWitness \/ ~RobustlyBounded(P0))

\* in single precision P + sigma I is singular to rounding unless P is definite,
\* so only solvable strictly convex problems are judged
Unjudged(run) == run.rep \in {6, 7} /\ (cls # "solvable" \/ ~StrictP)

\* Far from the origin the relative tolerances admit points of large problems whose
\* constraints are contradictory, so there the answer is judged by the tolerances alone.
JudgeOptimal(run, r) ==
  IF ~Solved(r) THEN <<>> ELSE
  Rule("Optimal only for problems with a minimum", cls = "solvable" \/ (HasWitness /\ run.er > 0)) \o KKT(r, Ppm(run.ea), Ppm(run.er))

JudgePInf(run, r) == Rule("PrimalInfeasible only for infeasible problems", r.code = PInf => cls \in {"infeasible", "infeasible-ray"})

JudgeDInf(run, r) == Rule("DualInfeasible only with a descending recession direction", r.code = DInf => cls \in {"unbounded", "infeasible-ray"})

JudgeDefinite(run, r) ==
  Rule("definite and correct answer",
       \/ r.code \in Allowed(cls, run) \cup (IF run.maxit >= 0 THEN {MaxIt} ELSE {})
       \/ r.code \in Allowed("solvable", run) /\ HasWitness /\ run.er > 0 /\ KKT(r, Ppm(run.ea), Ppm(run.er)) = <<>>)

-----------------------------------------------------------------------------
(* Budgets: U is the unlimited run with the same stop interval                *)
FirstRun(stop) == CHOOSE j \in 1..Len(C.runs) : C.runs[j].stop = stop /\ C.runs[j].maxit = -1 /\ C.runs[j].mt = 0

\* position of the first check, observed through an expired time limit
Expired(stop) == {j \in 1..Len(C.runs) : C.runs[j].stop = stop /\ C.runs[j].mt = 1 /\ T.res[j].code = MaxTm}

JudgeBudget(run, r) ==
  LET U == T.res[FirstRun(run.stop)]
      U1 == T.res[1]
      ex == Expired(run.stop)
  IN Rule("iteration limit respected", run.maxit >= 0 => r.iter <= run.maxit) \o
     Rule("MaxTime only with a time limit that can expire", r.code = MaxTm => run.mt = 1) \o
     Rule("MaxIterations only at the iteration limit", r.code = MaxIt => run.maxit >= 0 /\ r.iter = run.maxit) \o
     Rule("too small iteration limit reports MaxIterations", (run.maxit >= 0 /\ run.maxit < U.iter) => r.code = MaxIt) \o
     Rule("large enough iteration limit changes nothing", (run.maxit >= U.iter) => Same(r, U)) \o
     Rule("ample time limit changes nothing", (run.mt = 2 /\ run.maxit < 0) => Same(r, U)) \o
     Rule("expired time limit stops at the first check", run.mt = 1 =>
            \/ Same(r, U)
            \/ r.code = MaxTm /\ r.iter <= U.iter /\ r.iter <= run.stop + 1) \o
     Rule("expired time limit is noticed", (run.mt = 1 /\ U.iter > run.stop + 1) => r.code = MaxTm) \o
     (IF run.maxit >= 0 \/ run.mt # 0 \/ ex = {} THEN <<>> ELSE
        LET f == T.res[Min(ex)].iter IN
        Rule("termination happens at scheduled checks", (r.iter - f) % run.stop = 0 /\ r.iter >= f) \o
        Rule("no check succeeds before the first success of the densest schedule", r.iter >= U1.iter) \o
        Rule("a scheduled check of a finished problem succeeds",
             (U1.iter >= f /\ (U1.iter - f) % run.stop = 0) => Same(r, U1)))

-----------------------------------------------------------------------------
Verdict(r) == IF r.code = PolishFailed THEN OK ELSE r.code

JudgeAgree(run, r) ==
  LET ref == T.res[1]
      conclusive == r.code # MaxIt /\ ref.code # MaxIt
  IN Rule("same verdict", (conclusive /\ cls # "infeasible-ray") => Verdict(r) = Verdict(ref)) \o
     Rule("a verdict is reached", r.code \in Allowed(cls, run) \cup {MaxIt}) \o
     (IF Solved(r) /\ cls = "solvable" THEN KKT(r, Ppm(run.ea), Ppm(run.er)) ELSE <<>>)

\* |x - xref| for strictly convex problems (P >= I): sqrt of complementarity slack dominates
Close(r, ref) ==
  LET s == MinOf(r.S, ref.S)
  IN \A j \in 1..P0.n : Abs(r.x[j] \div (r.S \div s) - ref.x[j] \div (ref.S \div s)) <= (s \div 20) + NormInf(ref.x) \div (20 * (ref.S \div s))

JudgeReps(run, r) ==
  JudgeAgree(run, r) \o
  Rule("same minimizer", (Solved(r) /\ Solved(T.res[1]) /\ StrictP) => Close(r, T.res[1]))

JudgeWarm(run, r) ==
  JudgeReps(run, r) \o
  Rule("restart at the solution is immediate",
       (run.ws \in {2, 3} /\ Solved(T.res[1]) /\ T.res[1].code = OK /\ run.polish = 1 /\ run.rep = C.runs[1].rep)
          => Solved(r) /\ r.iter <= MaxOf(2, run.stop) + 1)

-----------------------------------------------------------------------------
JudgePolish(run, r) ==
  Rule("PolishFailed only when polishing", r.code = PolishFailed => run.polish = 1) \o
  (IF Solved(r) /\ cls = "solvable" THEN KKT(r, Ppm(run.ea), Ppm(run.er)) ELSE <<>>) \o
  Rule("failed polish leaves the solution alone", (r.code = PolishFailed /\ k = 2) =>
         T.res[1].code = OK /\ r.iter = T.res[1].iter /\ r.h1 = T.res[1].h1 /\ r.h2 = T.res[1].h2) \o
  Rule("polish succeeds on nondegenerate problems", (nondeg /\ run.polish = 1 /\ r.code # MaxIt) => r.code = OK) \o
  (IF nondeg /\ run.polish = 1 /\ r.code = OK /\ r.fin = 1
     THEN Rule("polished answer is accurate (primal)", PrimalOK(P0, r.x, r.S, 1, 0)) \o
          Rule("polished answer is accurate (dual)", DualOK(P0, r.x, r.y, r.S, 1, 0)) \o
          Rule("polished answer is accurate (complementarity)", ComplOK(P0, r.x, r.y, r.S, 1, 0))
     ELSE <<>>)

-----------------------------------------------------------------------------
Judge(run, r) ==
  IF Prop # "Q05" /\ (Excused(r) \/ Unjudged(C.runs[k]) \/ (Prop \in {"Q07", "Q08", "Q09"} /\ Excused(T.res[1]))) THEN <<>> ELSE
  CASE Prop = "Q01" -> JudgeOptimal(run, r)
    [] Prop = "Q02" -> JudgePInf(run, r)
    [] Prop = "Q03" -> JudgeDInf(run, r)
    [] Prop = "Q04" -> JudgeDefinite(run, r)
    [] Prop = "Q05" -> JudgeBudget(run, r)
    [] Prop = "Q07" -> JudgeReps(run, r)
    [] Prop = "Q08" -> JudgeWarm(run, r)
    [] Prop = "Q09" -> JudgePolish(run, r)

Init == /\ idx \in 1..Len(Cases)
        /\ k = 0 /\ cls = "?" /\ nondeg = FALSE /\ why = <<>>

\* the abstract solver decides the problem exactly
Classify ==
  /\ k = 0 /\ T.ev = "ok"
  /\ cls' = IF Prop = "Q05" THEN "unused" ELSE ClassOf
  /\ nondeg' = (Prop = "Q09" /\ ~HasWitness /\ Nondegenerate(P0))
  /\ k' = 1
  /\ UNCHANGED <<idx, why>>

\* one recorded call of the real solver
Solve ==
  /\ k >= 1 /\ k <= Len(C.runs) /\ why = <<>>
  /\ why' = Judge(C.runs[k], T.res[k])
  /\ k' = k + 1
  /\ UNCHANGED <<idx, cls, nondeg>>

\* the real code gave no answer at all
NoAnswer ==
  /\ k = 0 /\ T.ev \in {"crash", "hang"}
  /\ why' = <<"the solver returns (no " \o T.ev \o ")">>
  /\ k' = -1
  /\ UNCHANGED <<idx, cls, nondeg>>

Next == Classify \/ Solve \/ NoAnswer
Spec == Init /\ [][Next]_vars

Conforms == why = <<>>
WellFormed == cls # "no witness" /\ Len(Trace) = Len(Cases) /\ T.id = C.id
=============================================================================
