------------------------------ MODULE FlatGen -------------------------------
(* Flattened optimal control problems: polynomial functions of the logarithmic *)
(* coordinates, reference trajectories with arbitrary values and velocities.   *)
EXTENDS Integers, Sequences, Rng, Json, TLC, IOUtils
CONSTANTS Seed, Count
VARIABLE done
Vec(i, s, n, lo, hi) == [j \in 1..n |-> R(Seed, i, s + j, lo, hi)]
Sp(i, s, pct, m) == IF Chance(Seed, i, s, pct) THEN R(Seed, i, s + 1, -m, m) ELSE 0
Fun(i, s, nf, nv) ==
  LET dens == Pick(Seed, i, s, <<10, 25, 50>>) IN
  [j \in 1..nf |-> [c |-> R(Seed, i, s + 1 + j, -3, 3), l |-> [a \in 1..nv |-> Sp(i, s + 30 * j + 2 * a, 2 * dens, 2)],
     q |-> [a \in 1..nv |-> [b \in 1..nv |-> IF b < a THEN 0 ELSE Sp(i, s + 300 * j + 25 * a + 2 * b, dens, 1)]]]]
\* groups and dimensions of states and inputs, nq, ncr, nce
Dims == <<<<"R", 2, "R", 1, 1, 1, 1>>, <<"H", 3, "R", 1, 1, 2, 1>>, <<"F", 4, "R", 2, 2, 1, 2>>, <<"H", 3, "H", 3, 1, 1, 1>>, <<"R", 1, "H", 3, 1, 2, 2>>>>
Case(i) ==
  LET dm == R(Seed, i, 2, 1, Len(Dims))
      d == Dims[dm]
      nx == d[2]  nu == d[4]  nq == d[5]  ncr == d[6]  nce == d[7]
      m == IF d[1] = "F" THEN 1 ELSE 2
      nv == 1 + nx + nu
      ne == 1 + 2 * nx + nq
      form == Pick(Seed, i, 3, <<1, 1, 1, 1, 2>>)
      Traj(s, n) == [j \in 1..n |-> [a |-> R(Seed, i, s + 10 * j, 0, 4), b |-> R(Seed, i, s + 10 * j + 1, 0, 4), da |-> R(Seed, i, s + 10 * j + 2, 0, 4), db |-> R(Seed, i, s + 10 * j + 3, 0, 4)]]
      Op(s) == [fn |-> Pick(Seed, i, s, <<"f", "f", "f", "g", "cr", "theta", "ce", "sol">>), od |-> IF form = 2 THEN 0 ELSE R(Seed, i, s + 1, 0, 2), t |-> R(Seed, i, s + 2, 0, 5),
                e |-> Vec(i, s + 10, nx, -m, m), v |-> Vec(i, s + 20, nu, -m, m), ef |-> Vec(i, s + 30, nx, -m, m), q |-> Vec(i, s + 40, nq, -2, 2)]
  IN [id |-> i, dim |-> dm - 1, gx |-> d[1], nx |-> nx, gu |-> d[3], nu |-> nu, nq |-> nq, ncr |-> ncr, nce |-> nce, form |-> form,
      f |-> Fun(i, 1000, nx, nv), g |-> Fun(i, 3000, nq, nv), cr |-> Fun(i, 5000, ncr, nv), theta |-> Fun(i, 7000, 1, ne), ce |-> Fun(i, 9000, nce, ne),
      crl |-> Vec(i, 100, ncr, -9, 0), cru |-> Vec(i, 110, ncr, 0, 9), cel |-> Vec(i, 120, nce, -9, 0), ceu |-> Vec(i, 130, nce, 0, 9),
      xl |-> Traj(200, nx), ul |-> Traj(300, nu), mod |-> IF m = 1 THEN 3 ELSE 5, ops |-> [j \in 1..R(Seed, i, 6, 1, 5) |-> Op(12000 + 100 * j)]]
Init == done = FALSE /\ ndJsonSerialize(IOEnv.VH_CASES, [i \in 1..Count |-> Case(i)])
Next == done = FALSE /\ done' = TRUE
=============================================================================
