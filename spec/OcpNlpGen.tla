----------------------------- MODULE OcpNlpGen -----------------------------
(* Optimal control problems with polynomial functions on meshes of degree one  *)
(* and two intervals, and evaluations of the nonlinear program at changing     *)
(* points (including the final time).  Functions as in MeshFunGen: f, g and cr *)
(* of (t, x, u), theta and ce of (tf, x0, xf, q).  99 stands for infinity.     *)
EXTENDS Integers, Sequences, Rng, Json, TLC, IOUtils
CONSTANTS Seed, Count
VARIABLE done

Vec(i, s, n, lo, hi) == [j \in 1..n |-> R(Seed, i, s + j, lo, hi)]
Sp(i, s, pct, m) == IF Chance(Seed, i, s, pct) THEN R(Seed, i, s + 1, -m, m) ELSE 0
Fun(i, s, nf, nv) ==
  LET dens == Pick(Seed, i, s, <<20, 50, 90>>) IN
  [j \in 1..nf |-> [c |-> R(Seed, i, s + 1 + j, -3, 3), l |-> [a \in 1..nv |-> Sp(i, s + 20 * j + 2 * a, dens, 2)],
     q |-> [a \in 1..nv |-> [b \in 1..nv |-> IF b < a THEN 0 ELSE Sp(i, s + 100 * j + 20 * a + 2 * b, dens, 1)]]]]
Mesh(i, s) ==
  LET n == R(Seed, i, s, 1, 3)
      sp == IF n <= 2 /\ Chance(Seed, i, s + 1, 40) THEN R(Seed, i, s + 2, 1, n) ELSE 0
      lens == IF sp = 0 THEN [j \in 1..n |-> 1] ELSE [j \in 1..(n + 2) |-> IF n = 1 \/ (sp <= j /\ j <= sp + 2) THEN 1 ELSE 3]
  IN [n |-> n, sp |-> sp, len |-> lens, k |-> [j \in DOMAIN lens |-> R(Seed, i, s + 10 + j, 1, 2)]]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))

Dims == <<<<1, 1, 1, 1, 1>>, <<2, 1, 1, 2, 1>>, <<1, 2, 2, 1, 2>>, <<2, 2, 1, 1, 2>>, <<2, 1, 2, 2, 2>>>>
Lo(i, s) == IF Chance(Seed, i, s, 25) THEN -99 ELSE R(Seed, i, s + 1, -5, 1)
Hi(i, s) == IF Chance(Seed, i, s, 25) THEN 99 ELSE R(Seed, i, s + 1, 1, 5)

Case(i) ==
  LET dm == R(Seed, i, 2, 1, Len(Dims))
      d == Dims[dm]
      nx == d[1]  nu == d[2]  nq == d[3]  ncr == d[4]  nce == d[5]
      m == Mesh(i, 20)
      N == Sum(m.k)
      u == Sum(m.len)
      form == R(Seed, i, 3, 0, 2)
      nv == 1 + nx + nu
      ne == 1 + 2 * nx + nq
      ncon == nx * N + nq + ncr * N + nce
      Op(s) == [sc |-> R(Seed, i, s, 1, IF u = 1 THEN 4 ELSE IF u = 2 THEN 3 ELSE IF u = 3 THEN 2 ELSE 1),
                what |-> [j \in 1..R(Seed, i, s + 1, 1, 4) |-> Pick(Seed, i, s + 1 + j, IF form = 2 THEN <<"f", "g", "df", "dg">> ELSE <<"f", "g", "df", "dg", "d2f", "d2g", "dg", "d2g">>)],
                q |-> Vec(i, s + 20, nq, -3, 3),
                x |-> [a \in 1..(N + 1) |-> Vec(i, s + 100 + 5 * a, nx, -2, 2)], u |-> [a \in 1..N |-> Vec(i, s + 200 + 5 * a, nu, -2, 2)],
                lam |-> [a \in 1..ncon |-> Sp(i, s + 300 + 2 * a, 70, 2)]]
  IN [id |-> i, dim |-> dm - 1, nx |-> nx, nu |-> nu, nq |-> nq, ncr |-> ncr, nce |-> nce, mesh |-> m, form |-> form,
      f |-> Fun(i, 1000, nx, nv), g |-> Fun(i, 2000, nq, nv), cr |-> Fun(i, 3000, ncr, nv), theta |-> Fun(i, 4000, 1, ne), ce |-> Fun(i, 5000, nce, ne),
      crl |-> [j \in 1..ncr |-> Lo(i, 60 + 2 * j)], cru |-> [j \in 1..ncr |-> Hi(i, 70 + 2 * j)],
      cel |-> [j \in 1..nce |-> Lo(i, 80 + 2 * j)], ceu |-> [j \in 1..nce |-> Hi(i, 90 + 2 * j)],
      ops |-> [j \in 1..R(Seed, i, 6, 1, 3) |-> Op(6000 + 500 * j)]]

Init == done = FALSE /\ ndJsonSerialize(IOEnv.VH_CASES, [i \in 1..Count |-> Case(i)])
Next == done = FALSE /\ done' = TRUE
=============================================================================
