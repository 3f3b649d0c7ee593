------------------------------- MODULE DerGen -------------------------------
(* Optimal control problems whose analytic derivatives are right except for    *)
(* the planted errors: which function, which order, which entry, how large,    *)
(* and at which of the tested points the error shows.                          *)
EXTENDS Integers, Sequences, Rng, Json, TLC, IOUtils
CONSTANTS Seed, Count
VARIABLE done
Vec(i, s, n, lo, hi) == [j \in 1..n |-> R(Seed, i, s + j, lo, hi)]
Sp(i, s, pct, m) == IF Chance(Seed, i, s, pct) THEN R(Seed, i, s + 1, -m, m) ELSE 0
Fun(i, s, nf, nv) ==
  LET dens == Pick(Seed, i, s, <<0, 10, 25, 50>>) IN
  [j \in 1..nf |-> [c |-> R(Seed, i, s + 1 + j, -3, 3), l |-> [a \in 1..nv |-> Sp(i, s + 30 * j + 2 * a, 2 * dens, 2)],
     q |-> [a \in 1..nv |-> [b \in 1..nv |-> IF b < a THEN 0 ELSE Sp(i, s + 300 * j + 25 * a + 2 * b, dens, 1)]]]]
Dims == <<<<"R", 2, "R", 1, 1, 1, 1>>, <<"H", 3, "R", 1, 1, 2, 1>>, <<"F", 4, "R", 2, 2, 1, 2>>, <<"H", 3, "H", 3, 1, 1, 1>>, <<"R", 1, "H", 3, 1, 2, 2>>>>
Fns == <<"theta", "f", "g", "cr", "ce">>
Case(i) ==
  LET dm == R(Seed, i, 2, 1, Len(Dims))
      d == Dims[dm]
      nx == d[2]  nu == d[4]  nq == d[5]  ncr == d[6]  nce == d[7]
      nv == 1 + nx + nu
      ne == 1 + 2 * nx + nq
      np == Pick(Seed, i, 3, <<0, 0, 1, 1, 1, 1, 1, 2>>)
      first == R(Seed, i, 4, 1, 5)
      Plan(j) ==
        LET s == 12000 + 100 * j IN
        [fn |-> Fns[((first + (j - 1) * R(Seed, i, 5, 1, 4) - 1) % 5) + 1], od |-> R(Seed, i, s + 1, 1, 2), r |-> R(Seed, i, s + 2, 0, 30), c |-> R(Seed, i, s + 3, 0, 60),
         kind |-> Pick(Seed, i, s + 4, <<"add", "add", "add", "add", "nan", "inf", "wide">>), sz |-> Pick(Seed, i, s + 5, <<-20, -2, -1, 1, 2, 20>>),
         at |-> Pick(Seed, i, s + 6, <<0, 0, 0, 1, 2, 3>>)]
  IN [id |-> i, dim |-> dm - 1, form |-> Pick(Seed, i, 6, <<1, 1, 2, 2, 3, 4>>), dt |-> Pick(Seed, i, 7, <<0, 0, 1, 2>>), trials |-> Pick(Seed, i, 8, <<1, 1, 1, 2, 3, 0>>),
      eps |-> Pick(Seed, i, 9, <<0, 0, 0, 8>>),
      f |-> Fun(i, 1000, nx, nv), g |-> Fun(i, 3000, nq, nv), cr |-> Fun(i, 5000, ncr, nv), theta |-> Fun(i, 7000, 1, ne), ce |-> Fun(i, 9000, nce, ne),
      crl |-> Vec(i, 100, ncr, -9, 0), cru |-> Vec(i, 110, ncr, 0, 9), cel |-> Vec(i, 120, nce, -9, 0), ceu |-> Vec(i, 130, nce, 0, 9),
      plans |-> [j \in 1..np |-> Plan(j)]]
Init == done = FALSE /\ ndJsonSerialize(IOEnv.VH_CASES, [i \in 1..Count |-> Case(i)])
Next == done = FALSE /\ done' = TRUE
=============================================================================
