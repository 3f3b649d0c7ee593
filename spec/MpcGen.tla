------------------------------ MODULE MpcGen --------------------------------
(* Histories of model-predictive controllers: up to three controllers, calls,  *)
(* changes of references and weights, copies, moves, warm start resets.        *)
(* Mode "history": many copies and calls; mode "settings": one controller.     *)
EXTENDS Integers, Sequences, Rng, Json, TLC, IOUtils
CONSTANTS Seed, Count, Mode
VARIABLE done
Vec(i, s, n, lo, hi) == [j \in 1..n |-> R(Seed, i, s + j, lo, hi)]
Sp(i, s, pct, m) == IF Chance(Seed, i, s, pct) THEN R(Seed, i, s + 1, -m, m) ELSE 0
\* group, nx, nu, ncr, time dependent
\* and collocation points per interval
Dims == <<<<"R", 1, 1, 1, 0, 1>>, <<"R", 2, 1, 1, 1, 1>>, <<"R", 1, 2, 2, 1, 1>>, <<"R", 2, 2, 1, 0, 1>>, <<"R", 1, 3, 2, 0, 1>>, <<"H", 3, 1, 1, 1, 1>>, <<"H", 3, 2, 2, 0, 1>>, <<"R", 2, 2, 2, 1, 1>>,
          <<"R", 1, 1, 1, 1, 2>>, <<"R", 2, 1, 1, 0, 2>>, <<"H", 3, 1, 1, 1, 2>>>>
\* symmetric, diagonally dominant or semidefinite
Weight(i, s, n, pd) ==
  LET off == IF n > 1 /\ Chance(Seed, i, s, 40) THEN Pick(Seed, i, s + 1, <<-1, 1>>) ELSE 0
      zero == ~pd /\ Chance(Seed, i, s + 2, 25)
  IN [a \in 1..n |-> [b \in 1..n |-> IF zero THEN 0 ELSE IF a = b THEN R(Seed, i, s + 2 + a, IF off = 0 /\ ~pd THEN 0 ELSE 1 + (IF a = 2 THEN 1 ELSE 0), 4) ELSE IF {a, b} = {1, 2} THEN off ELSE 0]]
Ws(i, s, nx, nu) == [Q |-> Weight(i, s, nx, FALSE), R |-> Weight(i, s + 20, nu, TRUE), Qtf |-> Weight(i, s + 40, nx, FALSE)]
Case(i) ==
  LET dm == R(Seed, i, 2, 1, Len(Dims))
      d == Dims[dm]
      g == d[1]  nx == d[2]  nu == d[3]  ncr == d[4]
      nv == 1 + nx + nu
      K == R(Seed, i, 3, 1, 4)
      km == d[6]
      h == IF km = 1 /\ Chance(Seed, i, 4, 25) THEN 2 ELSE 1
      tv == d[5]
      Col(c) == IF c = 1 /\ tv = 0 THEN FALSE ELSE TRUE
      \* dynamics; a first quadratic term in half of the cases
      F(j) == [c |-> R(Seed, i, 10 + j, -1, 1),
               l |-> [a \in 1..nv |-> IF ~Col(a) \/ (km = 2 /\ a \in (1 + j)..(1 + nx)) THEN 0 ELSE IF a <= 1 + nx THEN Sp(i, 20 + 20 * j + 2 * a, 40, 1) ELSE IF (a + j) % 2 = 0 THEN Pick(Seed, i, 20 + 20 * j + 2 * a, <<-1, 1, 1, 1>>) ELSE Sp(i, 20 + 20 * j + 2 * a, 40, 1)],
               q |-> [a \in 1..nv |-> [b \in 1..nv |-> IF (km = 1 \/ j > 1) /\ a = 2 /\ b = (IF j = 1 THEN 2 ELSE nv) THEN Sp(i, 120 + 2 * j, 15, 1) ELSE 0]]]
      \* running constraints: +- u_j + linear in x + time
      Cr(j) == [c |-> R(Seed, i, 200 + j, -1, 1),
                l |-> [a \in 1..nv |-> IF a = 1 THEN (IF tv = 1 THEN Sp(i, 220 + 20 * j, 50, 1) ELSE 0) ELSE IF a = 1 + nx + j THEN Pick(Seed, i, 230 + 20 * j, <<-1, 1>>) ELSE IF a <= 1 + nx /\ km = 1 THEN Sp(i, 220 + 20 * j + 2 * a, 20, 1) ELSE 0],
                q |-> [a \in 1..nv |-> [b \in 1..nv |-> IF km = 1 /\ a = 2 /\ b = 2 THEN Sp(i, 290 + 2 * j, 20, 1) ELSE 0]]]
      tight == Pick(Seed, i, 6, <<0, 0, 3, 8>>)
      Traj(s, n) == [j \in 1..n |-> [a |-> R(Seed, i, s + 10 * j, 0, 4), b |-> R(Seed, i, s + 10 * j + 1, 0, 4), da |-> R(Seed, i, s + 10 * j + 2, 0, 4), db |-> R(Seed, i, s + 10 * j + 3, 0, 4)]]
      Lin(s, n) == [a |-> Vec(i, s, n, -2, 2), b |-> Vec(i, s + 5, n, -1, 1), t0 |-> R(Seed, i, s + 10, 0, 3)]
      Slot(s) == IF Mode = "history" THEN R(Seed, i, s, 1, 3) ELSE 1
      Kinds == IF Mode = "history" THEN <<"call", "call", "call", "call", "copy", "copy", "move", "xdes", "xdes", "udes", "udes", "w", "reset">>
               ELSE <<"call", "call", "call", "call", "xdes", "xrel", "udes", "udes", "urel", "w", "w", "reset">>
      Op(j) == LET s == 3000 + 300 * j
                   kd == IF j = 2 /\ Mode = "history" THEN "copy" ELSE IF j = 1 /\ Chance(Seed, i, s + 1, 50) THEN "udes" ELSE Pick(Seed, i, s, Kinds)
               IN [op |-> kd, c |-> IF j <= 2 THEN 1 ELSE Slot(s + 2), d |-> Slot(s + 3), ctor |-> R(Seed, i, s + 4, 0, 1),
                   t |-> R(Seed, i, s + 5, 0, 4), x |-> Vec(i, s + 10, nx, -2, 2), wu |-> R(Seed, i, s + 6, 0, 3), wx |-> R(Seed, i, s + 7, 0, 3),
                   traj |-> IF kd = "udes" THEN Traj(s + 100, nu) ELSE Traj(s + 100, nx), lin |-> Lin(s + 150, IF kd = "urel" THEN nu ELSE nx),
                   w |-> IF kd = "w" THEN <<Ws(i, s + 200, nx, nu)>> ELSE <<>>]
      n == R(Seed, i, 7, 3, IF Mode = "history" THEN 10 ELSE 8)
  IN [id |-> i, dim |-> dm - 1, g |-> g, nx |-> nx, nu |-> nu, ncr |-> ncr, K |-> K, km |-> km, h |-> h, tv |-> tv, ctor |-> R(Seed, i, 9, 0, 1),
      warm |-> IF Chance(Seed, i, 310, 70) THEN 1 ELSE 0, f |-> [j \in 1..nx |-> F(j)], cr |-> [j \in 1..ncr |-> Cr(j)],
      crl |-> [j \in 1..ncr |-> IF tight = 0 THEN -99 ELSE R(Seed, i, 320 + j, -tight, 0)], cru |-> [j \in 1..ncr |-> IF tight = 0 \/ Chance(Seed, i, 330 + j, 20) THEN 99 ELSE R(Seed, i, 340 + j, 0, tight)],
      ops |-> [j \in 1..n |-> Op(j)]]
Init == done = FALSE /\ ndJsonSerialize(IOEnv.VH_CASES, [i \in 1..Count |-> Case(i)])
Next == done = FALSE /\ done' = TRUE
=============================================================================
