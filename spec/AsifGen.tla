------------------------------- MODULE AsifGen -------------------------------
(* Safety filter problems and histories with small integers.  All times of a   *)
(* case are in units of 1/tu seconds.                                          *)
EXTENDS Integers, Sequences, LieModel, Rng, Json, TLC, IOUtils
CONSTANTS Seed, Count, Prop
VARIABLE done

Vec(i, s, n, lo, hi) == [j \in 1..n |-> R(Seed, i, s + j, lo, hi)]
Mat(i, s, r, c, pct, m) == [a \in 1..r |-> [b \in 1..c |-> IF Chance(Seed, i, s + 20 * a + b, pct) THEN R(Seed, i, s + 20 * a + b + 7, -m, m) ELSE 0]]
Inf == 99999

\* one problem: dynamics f = A log x + B log u + c + q x1^2 e_n, backup log u = K log x + t kt + k0,
\* barrier h = H log x + t a + t^2 b + x1^2 e + h0
Data(i, s, n, m, nh, ni, big) ==
  LET lo == Vec(i, s + 700, ni, -4, 0)  hi == Vec(i, s + 710, ni, 0, 4) IN
  [x |-> Vec(i, s, n, -2, 2), ud |-> Vec(i, s + 10, m, -3, 3),
   A |-> IF big \/ Prop = "A02" THEN Mat(i, s + 100, n, n, 15, 1) ELSE Mat(i, s + 100, n, n, 40, 1),
   B |-> Mat(i, s + 200, n, m, 80, 2), c |-> Vec(i, s + 300, n, -1, 1), q |-> IF Chance(Seed, i, s + 20, IF Prop = "A02" THEN 15 ELSE 40) THEN R(Seed, i, s + 21, -1, 1) ELSE 0,
   Kb |-> Mat(i, s + 320, m, n, 40, 1), kt |-> Vec(i, s + 420, m, -1, 1), k0 |-> Vec(i, s + 440, m, -1, 1),
   H |-> Mat(i, s + 460, nh, n, 70, 2), ha |-> Vec(i, s + 560, nh, -2, 2), hb |-> Vec(i, s + 570, nh, -1, 1), he |-> Vec(i, s + 580, nh, -1, 1), h0 |-> Vec(i, s + 590, nh, -3, 9),
   W |-> Vec(i, s + 600, m, 1, 4), rc |-> R(Seed, i, s + 22, 1, 10), al |-> R(Seed, i, s + 23, 0, 2),
   dt |-> Pick(Seed, i, s + 24, <<1, 1, 2, 2, 3, 5, 100>>), tau |-> IF big THEN 1 ELSE R(Seed, i, s + 25, 1, IF Prop = "A02" THEN 2 ELSE 3),
   uA |-> Mat(i, s + 620, ni, m, 80, 2), uc |-> Vec(i, s + 720, m, -1, 1),
   ul |-> [j \in 1..ni |-> IF Chance(Seed, i, s + 730 + j, 20) THEN -Inf ELSE lo[j]], uu |-> [j \in 1..ni |-> IF Chance(Seed, i, s + 740 + j, 20) THEN Inf ELSE hi[j]]]

Case(i) ==
  LET g == Pick(Seed, i, 1, <<"R1", "R2", "R2", "R3", "H", "H">>)
      gu == Pick(Seed, i, 2, IF Prop = "A02" THEN <<"R1", "R1", "R2">> ELSE <<"R1", "R2", "H">>)
      n == LDim(g)  m == LDim(gu)
      nh == R(Seed, i, 3, 1, 2)  ni == R(Seed, i, 4, 0, 2)
      big == Chance(Seed, i, 5, IF Prop = "A02" THEN 10 ELSE 30)
      K == IF big THEN R(Seed, i, 6, 8, 14) ELSE R(Seed, i, 6, 1, 4)
      d0 == Data(i, 1000, n, m, nh, ni, big)
      \* a filter keeps its dynamics and parameters
      Merge(d) == [d0 EXCEPT !.x = d.x, !.ud = d.ud, !.Kb = d.Kb, !.kt = d.kt, !.k0 = d.k0, !.H = d.H, !.ha = d.ha, !.hb = d.hb, !.he = d.he, !.h0 = d.h0]
  IN [id |-> i, g |-> g, gu |-> gu, nh |-> nh, ni |-> ni, K |-> K, tu |-> IF Prop = "A02" THEN 1 ELSE Pick(Seed, i, 7, <<1, 10, 3, 7>>),
      ops |-> [j \in 1..R(Seed, i, 8, 1, IF Prop = "A02" THEN 5 ELSE 3) |->
        LET d == Data(i, 1000 * j, n, m, nh, ni, big) IN
        [o |-> IF Prop = "A02" THEN "filter" ELSE Pick(Seed, i, 9 + j, <<"fresh", "reuse", "reuse">>), d |-> IF Prop = "A02" THEN Merge(d) ELSE d,
         cp |-> IF Chance(Seed, i, 30 + j, 30) THEN R(Seed, i, 40 + j, 1, 3) ELSE 0, num |-> R(Seed, i, 20 + j, 0, 1)]]]

Init == done = FALSE /\ ndJsonSerialize(IOEnv.VH_CASES, [i \in 1..Count |-> Case(i)])
Next == done = FALSE /\ done' = TRUE
=============================================================================
