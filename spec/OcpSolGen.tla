----------------------------- MODULE OcpSolGen -----------------------------
(* Solutions of the nonlinear program of an optimal control problem: node      *)
(* values of states, inputs and multipliers on a mesh, the final time is 36.   *)
EXTENDS Integers, Sequences, Rng, Json, TLC, IOUtils
CONSTANTS Seed, Count
VARIABLE done
Vec(i, s, n, lo, hi) == [j \in 1..n |-> R(Seed, i, s + j, lo, hi)]
Mesh(i, s) ==
  LET n == R(Seed, i, s, 1, 4)
      sp == IF n <= 2 /\ Chance(Seed, i, s + 1, 40) THEN R(Seed, i, s + 2, 1, n) ELSE 0
      lens == IF sp = 0 THEN [j \in 1..n |-> 1] ELSE [j \in 1..(n + 2) |-> IF n = 1 \/ (sp <= j /\ j <= sp + 2) THEN 1 ELSE 3]
  IN [n |-> n, sp |-> sp, len |-> lens, k |-> [j \in DOMAIN lens |-> R(Seed, i, s + 10 + j, 1, 2)]]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Dims == <<<<1, 1, 1, 1, 1>>, <<2, 1, 1, 2, 1>>, <<1, 2, 2, 1, 2>>, <<2, 2, 1, 1, 2>>, <<2, 1, 2, 2, 2>>>>
Case(i) ==
  LET dm == R(Seed, i, 2, 1, Len(Dims))
      d == Dims[dm]
      nx == d[1]  nu == d[2]  nq == d[3]  ncr == d[4]  nce == d[5]
      m == Mesh(i, 20)
      N == Sum(m.k)
      NV(s, cnt, n) == [a \in 1..cnt |-> Vec(i, s + 5 * a, n, -4, 4)]
  IN [id |-> i, dim |-> dm - 1, nx |-> nx, nu |-> nu, nq |-> nq, ncr |-> ncr, nce |-> nce, mesh |-> m, mesh2 |-> Mesh(i, 50),
      q |-> Vec(i, 100, nq, -9, 9), lq |-> Vec(i, 110, nq, -9, 9), lce |-> Vec(i, 120, nce, -9, 9),
      x |-> NV(200, N + 1, nx), u |-> NV(300, N, nu), ld |-> NV(400, N, nx), lcr |-> NV(500, N, ncr),
      at |-> [j \in 1..R(Seed, i, 3, 2, 6) |-> IF Chance(Seed, i, 600 + 2 * j, 20) THEN Pick(Seed, i, 601 + 2 * j, <<0, 36>>) ELSE R(Seed, i, 601 + 2 * j, 0, 36)]]
Init == done = FALSE /\ ndJsonSerialize(IOEnv.VH_CASES, [i \in 1..Count |-> Case(i)])
Next == done = FALSE /\ done' = TRUE
=============================================================================
