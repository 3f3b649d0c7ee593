----------------------------- MODULE OcpQpGen ------------------------------
(* Optimal control problems for the linearising transcription to a quadratic   *)
(* program: vector spaces and a nilpotent group.  Cost functions are linear in *)
(* the integral with a coefficient that may depend on tf, end constraints do   *)
(* not depend on it.  Costs on the group only depend on the abelian part.      *)
EXTENDS Integers, Sequences, Rng, Json, TLC, IOUtils
CONSTANTS Seed, Count
VARIABLE done
Vec(i, s, n, lo, hi) == [j \in 1..n |-> R(Seed, i, s + j, lo, hi)]
Sp(i, s, pct, m) == IF Chance(Seed, i, s, pct) THEN R(Seed, i, s + 1, -m, m) ELSE 0
\* ok1, ok2: which linear and quadratic coefficients may be non-zero
Fun(i, s, nf, nv, ok1(_), ok2(_, _)) ==
  LET dens == Pick(Seed, i, s, <<20, 50, 90>>) IN
  [j \in 1..nf |-> [c |-> R(Seed, i, s + 1 + j, -3, 3), l |-> [a \in 1..nv |-> IF ok1(a) THEN Sp(i, s + 20 * j + 2 * a, dens, 2) ELSE 0],
     q |-> [a \in 1..nv |-> [b \in 1..nv |-> IF b < a \/ ~ok2(a, b) THEN 0 ELSE Sp(i, s + 100 * j + 20 * a + 2 * b, dens, 1)]]]]
Mesh(i, s) ==
  LET n == R(Seed, i, s, 1, 3)
      sp == IF n <= 2 /\ Chance(Seed, i, s + 1, 40) THEN R(Seed, i, s + 2, 1, n) ELSE 0
      lens == IF sp = 0 THEN [j \in 1..n |-> 1] ELSE [j \in 1..(n + 2) |-> IF n = 1 \/ (sp <= j /\ j <= sp + 2) THEN 1 ELSE 3]
  IN [n |-> n, sp |-> sp, len |-> lens, k |-> [j \in DOMAIN lens |-> R(Seed, i, s + 10 + j, 1, 2)]]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
\* group, nx, nu, ncr, nce
Dims == <<<<"R", 1, 1, 1, 1>>, <<"R", 2, 1, 1, 2>>, <<"R", 1, 2, 2, 1>>, <<"R", 2, 2, 1, 1>>, <<"H", 3, 1, 2, 1>>, <<"H", 3, 2, 1, 3>>>>
Lo(i, s) == IF Chance(Seed, i, s, 25) THEN -99 ELSE R(Seed, i, s + 1, -5, 1)
Hi(i, s) == IF Chance(Seed, i, s, 25) THEN 99 ELSE R(Seed, i, s + 1, 1, 5)

Case(i) ==
  LET dm == R(Seed, i, 2, 1, Len(Dims))
      d == Dims[dm]
      g == d[1]  nx == d[2]  nu == d[3]  ncr == d[4]  nce == d[5]
      m == Mesh(i, 20)
      N == Sum(m.k)
      u == Sum(m.len)
      form == IF g = "H" THEN R(Seed, i, 3, 0, 1) ELSE R(Seed, i, 3, 0, 2)
      nv == 1 + nx + nu
      ne == 2 + 2 * nx
      All1(a) == TRUE
      All2(a, b) == TRUE
      \* running cost: not the central coordinate
      G1(a) == g = "R" \/ a # 4
      G2(a, b) == G1(a) /\ G1(b)
      T1(a) == g = "R" \/ ~(a \in {4, 7})
      T2(a, b) == T1(a) /\ T1(b) /\ (b # ne \/ a = 1)
      E1(a) == a # ne
      E2(a, b) == b # ne
      \* trajectory: value at t of component j is ((a + b t) mod 5) - 2, linear when derivatives are numerical
      Traj(s, n) == [j \in 1..n |-> [a |-> R(Seed, i, s + 10 * j, 0, 4), b |-> R(Seed, i, s + 10 * j + 1, IF form = 2 THEN -1 ELSE 0, IF form = 2 THEN 1 ELSE 4),
                                     da |-> R(Seed, i, s + 10 * j + 2, 0, 4), db |-> R(Seed, i, s + 10 * j + 3, 0, 4)]]
      Op(s) == [sc |-> R(Seed, i, s, 1, IF u = 1 THEN 4 ELSE IF u = 2 THEN 3 ELSE IF u = 3 THEN 2 ELSE 1), fresh |-> R(Seed, i, s + 1, 0, 1), comp |-> R(Seed, i, s + 2, 0, 1),
                xl |-> Traj(s + 100, nx), ul |-> Traj(s + 200, nu), x |-> [a \in 1..(N + 1) |-> Vec(i, s + 300 + 5 * a, nx, -3, 3)], u |-> [a \in 1..N |-> Vec(i, s + 400 + 5 * a, nu, -3, 3)],
                at |-> [j \in 1..3 |-> R(Seed, i, s + 450 + j, 0, 12)]]
  IN [id |-> i, dim |-> dm - 1, g |-> g, nx |-> nx, nu |-> nu, nq |-> 1, ncr |-> ncr, nce |-> nce, mesh |-> m, form |-> form,
      f |-> Fun(i, 1000, nx, nv, All1, All2), g0 |-> Fun(i, 2000, 1, nv, G1, G2), cr |-> Fun(i, 3000, ncr, nv, All1, All2),
      theta |-> Fun(i, 4000, 1, ne, T1, T2), ce |-> Fun(i, 5000, nce, ne, E1, E2),
      crl |-> [j \in 1..ncr |-> Lo(i, 60 + 2 * j)], cru |-> [j \in 1..ncr |-> Hi(i, 70 + 2 * j)],
      cel |-> [j \in 1..nce |-> Lo(i, 80 + 2 * j)], ceu |-> [j \in 1..nce |-> Hi(i, 90 + 2 * j)],
      ops |-> [j \in 1..R(Seed, i, 6, 1, 4) |-> Op(6000 + 500 * j)]]
Init == done = FALSE /\ ndJsonSerialize(IOEnv.VH_CASES, [i \in 1..Count |-> Case(i)])
Next == done = FALSE /\ done' = TRUE
=============================================================================
