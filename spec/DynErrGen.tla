------------------------------ MODULE DynErrGen -----------------------------
(* Trajectories for the relative dynamics error.                              *)
(* mode "table": mesh <1, 2> of N equal intervals, horizon 3 c N: all node     *)
(*   times are integers, x and u are arbitrary tables over these times         *)
(* mode "poly": x is a polynomial the mesh resolves, u its derivative          *)
(* mode "bump": x constant, u = B on interval m and 0 elsewhere                *)
EXTENDS Integers, Sequences, Rng, Json, TLC, IOUtils
CONSTANTS Seed, Count
VARIABLE done

Case(i) ==
  LET mode == Pick(Seed, i, 1, <<"table", "table", "poly", "bump">>)
      n == R(Seed, i, 2, 1, 4)
      c == R(Seed, i, 3, 1, 2)
      t0 == Pick(Seed, i, 4, <<0, 0, 1, -4, 7>>)
      tpl == Pick(Seed, i, 5, <<<<1, 5>>, <<2, 4>>, <<4, 6>>, <<5, 10>>>>)
  IN [id |-> i, mode |-> mode, n |-> n, t0 |-> t0, tpl |-> IF mode = "table" THEN <<1, 2>> ELSE tpl,
      tf |-> t0 + (IF mode = "table" THEN 3 * c * n ELSE R(Seed, i, 6, 1, 6)), c |-> c,
      ks |-> [j \in 1..n |-> IF mode = "table" THEN R(Seed, i, 10 + j, 1, 2) ELSE R(Seed, i, 10 + j, tpl[1], tpl[2] + 1)],
      x |-> IF mode = "table" THEN [j \in 1..(3 * c * n + 1) |-> R(Seed, i, 30 + j, -9, 9)] ELSE <<>>,
      u |-> IF mode = "table" THEN [j \in 1..(3 * c * n + 1) |-> R(Seed, i, 60 + j, -9, 9)] ELSE <<>>,
      \* f(t, x, u) = f1 t + f2 x + f3 u + f4
      f |-> [j \in 1..4 |-> R(Seed, i, 90 + j, -2, 2)],
      \* coefficients of x (poly: degree at most the smallest degree)
      q |-> [j \in 1..5 |-> R(Seed, i, 100 + j, -2, 2)],
      m |-> R(Seed, i, 110, 0, n - 1), B |-> R(Seed, i, 111, -6, 6), x0 |-> R(Seed, i, 112, -4, 4),
      form |-> R(Seed, i, 113, 0, 2), dim |-> R(Seed, i, 114, 1, 2), te |-> R(Seed, i, 115, -3, 6)]

Init == done = FALSE /\ ndJsonSerialize(IOEnv.VH_CASES, [i \in 1..Count |-> Case(i)])
Next == done = FALSE /\ done' = TRUE
=============================================================================
