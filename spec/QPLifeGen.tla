----------------------------- MODULE QPLifeGen ------------------------------
(* Random histories of QPLife, printed as JSON cases.  The pool of problems    *)
(* of a history is derived from its salt: all problems of one structure share  *)
(* dimensions and sparsity pattern; structures differ in one or both.          *)
EXTENDS QPLife, Rng, Json, TLC

CONSTANTS Salts, Depth, Seed

VARIABLES salt, hist
vars == <<slot, salt, hist>>

B(k) == Seed * 7919 + salt * 31 + k

\* pattern of structure c: dims and 0/1 masks
Dim(c) == [n |-> IF c = 2 THEN R(B(0), 1, 1, 1, 3) ELSE R(B(0), 1, 2, 1, 3),
           m |-> IF c = 2 THEN R(B(0), 1, 3, 0, 3) ELSE R(B(0), 1, 4, 0, 3)]
Mask(c, r, j, what) == Chance(B(c), 10 + what, 10 * r + j, 65)
NZ(v) == IF v >= 0 THEN v + 1 ELSE v

Pbm(p) ==
  LET c == Struct(p)
      n == Dim(c).n
      m == Dim(c).m
      rk == R(B(c), 2, 1, 0, n)
      \* rows of B with the pattern of the structure
      Bm == [k \in 1..rk |-> [j \in 1..n |-> IF Mask(c, k, j, 1) THEN NZ(R(B(100 + p), 3, 10 * k + j, -2, 1)) ELSE 0]]
      Am == [r \in 1..m |-> [j \in 1..n |-> IF Mask(c, r, j, 2) THEN NZ(R(B(100 + p), 4, 10 * r + j, -2, 1)) ELSE 0]]
      kind == [r \in 1..m |-> Pick(B(100 + p), 5, r, <<"eq", "le", "ge", "two", "two", "free">>)]
      x0 == [j \in 1..n |-> R(B(100 + p), 6, j, -2, 2)]
      ax(r) == LET RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE Am[r][j] * x0[j] + S(j - 1) IN S(n)
      far == Chance(B(100 + p), 7, 1, 15)
      lo(r) == ax(r) - R(B(100 + p), 8, r, 0, 1) + (IF far THEN 4 * r ELSE 0)
      hi(r) == lo(r) + R(B(100 + p), 9, r, 1, 2)
      q == IF Chance(B(100 + p), 10, 1, 50)
           THEN [j \in 1..n |-> LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE Bm[k][j] * x0[k] + S(k - 1) IN S(rk)]
           ELSE [j \in 1..n |-> R(B(100 + p), 11, j, -3, 3)]
      eqv(r) == IF kind[r] = "eq" THEN lo(r) ELSE hi(r)
  IN [n |-> n, m |-> m, B |-> Bm, q |-> q, A |-> Am,
      lf |-> [r \in 1..m |-> IF kind[r] \in {"le", "free"} THEN 0 ELSE 1],
      uf |-> [r \in 1..m |-> IF kind[r] \in {"ge", "free"} THEN 0 ELSE 1],
      l |-> [r \in 1..m |-> IF kind[r] \in {"le", "free"} THEN 0 ELSE lo(r)],
      u |-> [r \in 1..m |-> IF kind[r] \in {"ge", "free"} THEN 0 ELSE eqv(r)]]

Prm(r) == CASE r = 1 -> [scaling |-> 1, polish |-> 1, ea |-> 3, er |-> 3, stop |-> 25, maxit |-> 20000]
            [] r = 2 -> [scaling |-> 0, polish |-> 0, ea |-> 4, er |-> 4, stop |-> 3, maxit |-> 20000]
            [] r = 3 -> [scaling |-> 1, polish |-> 0, ea |-> 3, er |-> 3, stop |-> 10, maxit |-> 12]

Init == slot = InitSlots /\ salt \in 1..Salts /\ hist = <<>>

\* candidate j for the next operation, drawn from the salt; solves are preferred
Cand(j) ==
  LET i == Len(hist) + 1
      b == B(1000)
      a == Pick(b, i, 10 * j, <<"construct", "construct", "create", "analyze", "analyze", "solve", "solve", "solve", "solve", "solve", "solve",
                                "solve", "solve", "copy", "move", "copyassign", "moveassign", "copyassign", "copyassign", "move", "selfassign", "destroy">>)
      s == R(b, i, 10 * j + 1, 1, Slots)
      t == R(b, i, 10 * j + 2, 1, Slots)
      w == Pick(b, i, 10 * j + 3, <<0, 0, 1, 2>>)
      live == IF a = "solve" /\ slot[s].struct > 0 THEN (slot[s].struct - 1) * PerStruct + R(b, i, 10 * j + 4, 1, PerStruct)
              ELSE R(b, i, 10 * j + 5, 1, NStruct * PerStruct)
      r == R(b, i, 10 * j + 6, 1, NPrm)
  IN CASE a = "construct" -> Op(a, s, 0, live, r, 0)
       [] a = "create" -> Op(a, s, 0, 0, r, 0)
       [] a = "analyze" -> Op(a, s, 0, live, 0, 0)
       [] a = "solve" -> Op(a, s, IF w = 2 THEN t ELSE 0, live, 0, w)
       [] a \in {"copy", "move", "copyassign", "moveassign"} -> Op(a, s, t, 0, 0, 0)
       [] OTHER -> Op(a, s, 0, 0, 0, 0)

\* the first enabled candidate
RECURSIVE First(_)
First(j) == IF j > 12 THEN Op("construct", 1, 0, R(B(1001), Len(hist), 1, 1, NStruct * PerStruct), 1, 0)
            ELSE LET o == Cand(j) IN IF Enabled(o) THEN o ELSE First(j + 1)
Chosen == First(1)

Next == /\ Len(hist) < Depth
        /\ LET o == Chosen IN slot' = Effect(o, Len(hist) + 1) /\ hist' = Append(hist, o)
        /\ UNCHANGED salt

Spec == Init /\ [][Next]_vars

Emit == Len(hist) = Depth =>
          PrintT("VHCASE " \o ToJson([salt |-> salt, slots |-> Slots, per |-> PerStruct,
                   rep |-> salt % 4, pool |-> [p \in Problems |-> Pbm(p)],
                   prms |-> [r \in 1..NPrm |-> Prm(r)], ops |-> hist]))
=============================================================================
