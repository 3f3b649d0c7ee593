----------------------------- MODULE MeshFunGen -----------------------------
(* Functions over meshes of degree one and two intervals.  Interval lengths are *)
(* len units; the horizon is 3 sc times the number of units, so that all node   *)
(* times are integers.  f_j = c + lin.z + sum of quadratic terms, z = (t, x, u) *)
EXTENDS Integers, Sequences, Rng, Json, TLC, IOUtils
CONSTANTS Seed, Count, Prop
VARIABLE done

Vec(i, s, n, lo, hi) == [j \in 1..n |-> R(Seed, i, s + j, lo, hi)]
Sp(i, s, pct, m) == IF Chance(Seed, i, s, pct) THEN R(Seed, i, s + 1, -m, m) ELSE 0
Fun(i, s, nf, nv) ==
  LET dens == Pick(Seed, i, s, <<20, 50, 90>>) IN
  [j \in 1..nf |-> [c |-> R(Seed, i, s + 1 + j, -3, 3), l |-> [a \in 1..nv |-> Sp(i, s + 20 * j + 2 * a, dens, 2)],
     q |-> [a \in 1..nv |-> [b \in 1..nv |-> IF b < a THEN 0 ELSE Sp(i, s + 100 * j + 20 * a + 2 * b, dens, 1)]]]]

Mesh(i, s) ==
  LET n == R(Seed, i, s, 1, 4)
      sp == IF n <= 2 /\ Chance(Seed, i, s + 1, 40) THEN R(Seed, i, s + 2, 1, n) ELSE 0
      \* interval sp is split into three
      lens == IF sp = 0 THEN [j \in 1..n |-> 1] ELSE [j \in 1..(n + 2) |-> IF j < sp \/ j > sp + 2 THEN 3 ELSE 1]
  IN [n |-> n, sp |-> sp, len |-> lens, k |-> [j \in DOMAIN lens |-> R(Seed, i, s + 10 + j, 1, 2)]]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))

Op(i, s, C, m2) ==
  LET ms == IF m2 THEN R(Seed, i, s, 0, 1) ELSE 0
      m == C.meshes[ms + 1]
      N == Sum(m.k)
      fn == Pick(Seed, i, s + 1, IF C.g = "H" THEN <<"eval", "int">> ELSE <<"eval", "int", "dyn">>)
      nf == IF fn = "dyn" THEN C.nx ELSE C.nf
  IN [fn |-> fn, ms |-> ms, deriv |-> R(Seed, i, s + 2, 0, C.maxd), scale |-> R(Seed, i, s + 3, 0, 1), t0 |-> Pick(Seed, i, s + 4, <<0, 0, 2, -5>>),
      zx |-> R(Seed, i, s + 5, 0, 9), fi |-> R(Seed, i, s + 8, 0, 1),
      x |-> [a \in 1..(N + 1) |-> Vec(i, s + 100 + 5 * a, C.nx, -2, 2)], u |-> [a \in 1..N |-> Vec(i, s + 200 + 5 * a, C.nu, -2, 2)],
      lam |-> IF fn = "int" THEN Vec(i, s + 300, nf, -2, 3) ELSE Vec(i, s + 300, nf * N, -2, 3), comp |-> R(Seed, i, s + 6, 0, 1), form |-> R(Seed, i, s + 7, 0, 1)]

Case(i) ==
  LET g == Pick(Seed, i, 1, <<"R", "R", "R", "H">>)
      nx == IF g = "H" THEN 3 ELSE R(Seed, i, 2, 1, 2)
      nu == R(Seed, i, 3, 1, 2)
      nf == R(Seed, i, 4, 1, 2)
      meshes == <<Mesh(i, 20), Mesh(i, 50)>>
      C == [g |-> g, nx |-> nx, nu |-> nu, nf |-> nf, meshes |-> meshes, maxd |-> IF g = "H" THEN 1 ELSE 2]
  IN [id |-> i, g |-> g, nx |-> nx, nu |-> nu, nf |-> nf, fresh |-> IF Prop = "F01" THEN 1 ELSE 0, meshes |-> meshes, sc |-> R(Seed, i, 5, 1, 2),
      \* two functions of each kind; those of the dynamics have nx components
      f |-> <<Fun(i, 1000, nf, 1 + nx + nu), Fun(i, 2000, nf, 1 + nx + nu)>>, fd |-> <<Fun(i, 3000, nx, 1 + nx + nu), Fun(i, 4000, nx, 1 + nx + nu)>>,
      ops |-> [j \in 1..(IF Prop = "F01" THEN R(Seed, i, 6, 1, 3) ELSE R(Seed, i, 6, 3, 7)) |-> Op(i, 5000 + 500 * j, C, Prop = "F02")]]

Init == done = FALSE /\ ndJsonSerialize(IOEnv.VH_CASES, [i \in 1..Count |-> Case(i)])
Next == done = FALSE /\ done' = TRUE
=============================================================================
