------------------------------- MODULE PidGen -------------------------------
(* Histories of two PID controllers.  Times are in quarters of a second.       *)
EXTENDS Integers, Sequences, LieModel, Rng, Json, TLC, IOUtils
CONSTANTS Seed, Count, MaxOps
VARIABLE done

Groups == <<"R1", "R2", "H", "H", "F">>
Vec(i, s, n, lo, hi) == [j \in 1..n |-> R(Seed, i, s + j, lo, hi)]
Op(i, s, g) ==
  LET n == LDim(g)
      o == Pick(Seed, i, s, <<"call", "call", "call", "call", "call", "kp", "kd", "ki", "reset", "xdes", "xdes", "copy">>)
      com == g \in {"R1", "R2"}
  IN [o |-> o, sl |-> R(Seed, i, s + 1, 0, 1), vec |-> R(Seed, i, s + 2, 0, 1), gain |-> Vec(i, s + 10, n, -2, 3),
      x |-> Vec(i, s + 20, n, -3, 3), v |-> Vec(i, s + 30, n, -5, 5),
      \* elapsed time of the common clock before this operation
      dt |-> Pick(Seed, i, s + 3, <<0, 1, 1, 2, 4, 7, IF com THEN 20 ELSE 3, IF com THEN 60 ELSE 5, -3>>),
      kind |-> R(Seed, i, s + 4, 0, 3), rv |-> R(Seed, i, s + 5, 0, 1),
      \* trajectories: constant, moving function, spline
      g0 |-> Vec(i, s + 40, n, -3, 3), g1 |-> IF g = "F" THEN VZero(n) ELSE Vec(i, s + 50, n, -1, 1), v0 |-> Vec(i, s + 60, n, -4, 4), v1 |-> Vec(i, s + 70, n, -1, 1),
      a0 |-> Vec(i, s + 80, n, -4, 4), b |-> IF g = "F" THEN VZero(n) ELSE Vec(i, s + 90, n, -2, 2), c |-> IF com THEN Vec(i, s + 95, n, -1, 1) ELSE VZero(n),
      mv |-> R(Seed, i, s + 6, 0, 2)]

Case(i) ==
  LET g == Pick(Seed, i, 1, Groups) IN
  [id |-> i, g |-> g, ty |-> R(Seed, i, 2, 0, 4), t0 |-> Pick(Seed, i, 3, <<0, 4, -8, 20>>),
   wl |-> <<Pick(Seed, i, 4, <<-1, 0, 1, 5, 30>>), Pick(Seed, i, 5, <<-1, 0, 3, 12>>)>>,
   ops |-> [j \in 1..R(Seed, i, 6, 2, MaxOps) |-> Op(i, 100 * j, g)]]

Init == done = FALSE /\ ndJsonSerialize(IOEnv.VH_CASES, [i \in 1..Count |-> Case(i)])
Next == done = FALSE /\ done' = TRUE
=============================================================================
