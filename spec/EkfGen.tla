------------------------------- MODULE EkfGen -------------------------------
(* Filter histories: rounds of reset, predict and update with small integers.  *)
EXTENDS Integers, Sequences, LieModel, Rng, Json, TLC, IOUtils
CONSTANTS Seed, Count, Prop
VARIABLE done

Vec(i, s, n, lo, hi) == [j \in 1..n |-> R(Seed, i, s + j, lo, hi)]
\* sparse small matrix
Mat(i, s, r, c, pct) == [a \in 1..r |-> [b \in 1..c |-> IF Chance(Seed, i, s + 20 * a + b, pct) THEN R(Seed, i, s + 20 * a + b + 7, -1, 1) ELSE 0]]
Cov(i, s, n, d) == LET L == [a \in 1..n |-> [b \in 1..n |-> IF b = a THEN d ELSE IF b < a THEN R(Seed, i, s + 20 * a + b, -1, 1) ELSE 0]]
                   IN MatMul(L, MatT(L))
\* entries below the diagonal must not matter
Garbage(i, s, m) == [a \in DOMAIN m |-> [b \in DOMAIN m |-> IF b < a THEN m[a][b] + R(Seed, i, s + 5 * a + b, -1, 1) * 7 ELSE m[a][b]]]

Op(i, s, g, n, o, rk) ==
  [o |-> o, x |-> Vec(i, s, n, -1, 1), P |-> Cov(i, s + 100, n, R(Seed, i, s + 1, 1, 2)),
   A |-> IF rk = 1 THEN <<<<0, R(Seed, i, s + 2, -2, 2)>>, <<0, 0>>>> ELSE Mat(i, s + 200, n, n, 50),
   A2 |-> IF rk = 0 /\ Chance(Seed, i, s + 3, 30) THEN Mat(i, s + 300, n, n, 30) ELSE [a \in 1..n |-> VZero(n)],
   b |-> Vec(i, s + 400, n, -1, 1), c |-> Vec(i, s + 420, n, -1, 1),
   Q |-> Garbage(i, s + 450, Cov(i, s + 500, n, R(Seed, i, s + 4, 0, 1))),
   tau |-> Pick(Seed, i, s + 5, IF g = "F" THEN <<0, 1, 2>> ELSE <<0, 1, 2, 3, 3, 4>>), dt |-> Pick(Seed, i, s + 6, <<0, 0, 1, 2, 3, 5>>),
   ny |-> R(Seed, i, s + 7, 1, 2), H |-> Mat(i, s + 600, 2, n, 70), h0 |-> Vec(i, s + 700, 2, -2, 2), y |-> Vec(i, s + 710, 2, -4, 4),
   R |-> LET r == R(Seed, i, s + 8, -1, 1) IN <<<<R(Seed, i, s + 9, 1, 2), r>>, <<r + 7 * R(Seed, i, s + 10, -1, 1), 2>>>>,
   an |-> R(Seed, i, s + 11, 0, 1)]

Kinds == IF Prop = "K01" THEN <<<<"reset", "predict">>, <<"reset", "predict", "predict">>, <<"reset", "predict", "update", "predict">>, <<"predict">>>>
         ELSE <<<<"reset", "update">>, <<"reset", "update", "update">>, <<"reset", "predict", "update">>, <<"update", "reset", "update", "predict">>>>
Case(i) ==
  LET rk == IF Prop = "K01" /\ Chance(Seed, i, 1, 25) THEN 1 ELSE 0
      g == IF rk = 1 THEN "R2" ELSE Pick(Seed, i, 2, IF Prop = "K01" THEN <<"R1", "R2", "R3", "H", "H", "F">> ELSE <<"R1", "R2", "R3", "H", "H">>)
      n == LDim(g)
      ks == IF rk = 1 THEN <<"reset", "predict">> ELSE Pick(Seed, i, 3, Kinds)
      k2 == IF rk = 1 THEN <<"reset", "predict">> ELSE Pick(Seed, i, 4, Kinds)
      all == ks \o k2
  IN [id |-> i, g |-> g, rk |-> rk, dt |-> R(Seed, i, 5, 0, 1), ops |-> [j \in 1..Len(all) |-> Op(i, 1000 * j, g, n, all[j], rk)]]

Init == done = FALSE /\ ndJsonSerialize(IOEnv.VH_CASES, [i \in 1..Count |-> Case(i)])
Next == done = FALSE /\ done' = TRUE
=============================================================================
