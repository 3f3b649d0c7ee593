---------------------------- MODULE SparseTrace -----------------------------
(* Validates recorded block operations (S01 values, S02 structure) and        *)
(* second-derivative compositions (S03) against SparseMat.                     *)
EXTENDS SparseMat, Json, IOUtils, TLC
CONSTANT Prop

Cases == ndJsonDeserialize(IOEnv.VH_CASES)
Trace == ndJsonDeserialize(IOEnv.VH_TRACE)

VARIABLES idx, k, val, stored, comp, why
vars == <<idx, k, val, stored, comp, why>>

C == Cases[idx]
T == Trace[idx]
Rule(name, ok) == IF ok THEN <<>> ELSE <<name>>
Fogs == Prop = "S03"
Cl == Cells(C.rows, C.cols)

ObsVal(r) == [x \in Cl |-> r.v[x[1] + 1][x[2] + 1]]
ObsStored(r) == {x \in Cl : r.p[x[1] + 1][x[2] + 1] = 1}
Mark(r) == [x \in Cl |-> r.mark[x[1] + 1][x[2] + 1]]

JudgeVals(o, r) ==
  LET nv == ObsVal(r) IN
  Rule("block operation writes exactly the addressed entries", \A x \in Cl : nv[x] \in NewVals(o, x, val[x], C.major))

JudgeStruct(o, r) ==
  LET ns == ObsStored(r)
      nv == ObsVal(r)
      zeros == {x \in ns : nv[x] = 0}
  IN Rule("stored entries are kept", stored \subseteq ns) \o
     Rule("only addressed entries are added", ns \subseteq stored \cup MayStore(o, Cl)) \o
     Rule("operation inside the pattern keeps the pattern", Touched(o, Cl) \subseteq stored => ns = stored \cup (ns \cap stored)) \o
     Rule("operation inside the pattern keeps the matrix compressed",
          (comp = 1 /\ Touched(o, Cl) \subseteq stored /\ o.a # "uncompress") => r.comp = 1) \o
     Rule("compression state after compress/uncompress", (o.a = "compress" => r.comp = 1) /\ (o.a = "uncompress" => r.comp = 0)) \o
     Rule("number of stored entries", r.nnz = Cardinality(ns)) \o
     Rule("explicit zeros are counted", r.zeros = Cardinality(zeros) /\ r.zerosT = r.zeros) \o
     Rule("explicit zeros are marked", \A x \in Cl : Mark(r)[x] = (IF x \notin ns THEN 0 ELSE IF nv[x] = 0 THEN 9 ELSE 1)) \o
     Rule("zeroing keeps the pattern and zeroes", o.a \in {"zero", "zeroBlock"} =>
            /\ ns = stored
            /\ \A x \in Cl : nv[x] = (IF o.a = "zero" \/ InPanel(o, x, C.major) THEN 0 ELSE val[x]))

RECURSIVE SumS(_)
SumS(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN t[2] + SumS(S \ {t})
FogVal(x) ==
  LET a == x[1] - C.r0
      cc == x[2] - C.c0
      no == cc \div C.Nx
      b == cc % C.Nx
      old == C.pre[x[1] + 1][x[2] + 1]
  IN IF a < 0 \/ a >= C.Nx \/ cc < 0 \/ cc >= C.No * C.Nx THEN old
     ELSE old + SumS({<<pq, C.Jg[pq[1]][a + 1] * C.Hf[pq[1]][no * C.Ny + pq[2]] * C.Jg[pq[2]][b + 1]>> : pq \in (1..C.Ny) \X (1..C.Ny)})
              + SumS({<<y, C.Jf[no + 1][y] * C.Hg[a + 1][(y - 1) * C.Nx + b + 1]>> : y \in 1..C.Ny})

JudgeFog(r) == Rule("Hessian of a composition is the chain rule", \A x \in Cl : r.v[x[1] + 1][x[2] + 1] = FogVal(x))

Init == /\ idx \in 1..Len(Cases) /\ k = 1 /\ why = <<>>
        /\ val = (IF Fogs THEN <<>> ELSE Val0(C.init, C.rows, C.cols))
        /\ stored = (IF Fogs THEN {} ELSE Stored0(C.init))
        /\ comp = C.comp

Step ==
  /\ ~Fogs /\ T.ev = "ok" /\ k >= 1 /\ k <= Len(C.ops) /\ why = <<>>
  /\ LET o == C.ops[k]  r == T.res[k] IN
       /\ why' = (IF Prop = "S01" THEN JudgeVals(o, r) ELSE JudgeStruct(o, r))
       /\ val' = ObsVal(r) /\ stored' = ObsStored(r) /\ comp' = r.comp
  /\ k' = k + 1 /\ UNCHANGED idx

Compose ==
  /\ Fogs /\ T.ev = "ok" /\ k = 1
  /\ why' = JudgeFog(T.res[1]) /\ k' = 2
  /\ UNCHANGED <<idx, val, stored, comp>>

NoAnswer ==
  /\ k = 1 /\ T.ev \in {"crash", "hang"}
  /\ why' = <<"every operation returns (no " \o T.ev \o ")">> /\ k' = -1
  /\ UNCHANGED <<idx, val, stored, comp>>

Next == Step \/ Compose \/ NoAnswer
Spec == Init /\ [][Next]_vars
Conforms == why = <<>>
WellFormed == Len(Trace) = Len(Cases) /\ T.id = C.id
=============================================================================
