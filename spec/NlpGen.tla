------------------------------- MODULE NlpGen -------------------------------
(* Callback histories for the Ipopt adapter around polynomial NLPs with        *)
(* integer data:  f(x) = c.x + sum_{i<=j} Q[i][j] x_i x_j + sum t_i x_i^3,      *)
(* g_r(x) = a_r.x + sum_{i<=j} b_r[i][j] x_i x_j.                               *)
EXTENDS Integers, Sequences, Rng, Json, TLC, IOUtils
CONSTANTS Seed, Count
VARIABLE done

Up(i, s, n, d) == [r \in 1..n |-> [c \in 1..n |-> IF r <= c /\ Chance(Seed, i, s + 10 * r + c, d) THEN R(Seed, i, s + 500 + 10 * r + c, -3, 3) ELSE 0]]
Vec(i, s, n, lo, hi) == [j \in 1..n |-> R(Seed, i, s + j, lo, hi)]

Op0 == [a |-> "info", x |-> <<>>, lam |-> <<>>, sigma |-> 0, fx |-> 0, fz |-> 0, fl |-> 0, new |-> 1, zl |-> <<>>, zu |-> <<>>, status |-> 0, obj |-> 0, iter |-> 0]

GenOp(i, k, n, m, h) ==
  LET s == 10000 + 100 * k
      a == Pick(Seed, i, s, IF h = 1 THEN <<"info", "bounds", "start", "f", "grad", "g", "jacS", "jac", "jac", "hesS", "hes", "hes", "hes", "final">>
                                     ELSE <<"info", "bounds", "start", "f", "grad", "g", "jacS", "jac", "jac", "final">>)
  IN [Op0 EXCEPT !.a = a, !.x = Vec(i, s + 1, n, -3, 3), !.lam = Vec(i, s + 11, m, -3, 3), !.sigma = R(Seed, i, s + 21, -1, 3),
        !.fx = 1, !.fz = R(Seed, i, s + 22, 0, 1), !.fl = R(Seed, i, s + 23, 0, 1), !.new = R(Seed, i, s + 24, 0, 1),
        !.zl = Vec(i, s + 30, n, 0, 5), !.zu = Vec(i, s + 40, n, 0, 5), !.status = R(Seed, i, s + 50, 0, 13),
        !.obj = R(Seed, i, s + 51, -9, 9), !.iter = R(Seed, i, s + 52, 0, 99)]

Case(i) ==
  LET n == R(Seed, i, 1, 1, 3)
      m == R(Seed, i, 2, 0, 3)
      h == R(Seed, i, 3, 0, 1)
      bk(s) == Pick(Seed, i, s, <<0, 1, 1>>)
      K == R(Seed, i, 4, 5, 14)
      ops == [k \in 1..K |-> GenOp(i, k, n, m, h)]
  IN [id |-> i, n |-> n, m |-> m, hess |-> h, lval |-> R(Seed, i, 5, 0, 1),
      c |-> Vec(i, 100, n, -3, 3), Q |-> Up(i, 200, n, 60), t |-> [j \in 1..n |-> IF Chance(Seed, i, 120 + j, 40) THEN R(Seed, i, 130 + j, -2, 2) ELSE 0],
      a |-> [r \in 1..m |-> [j \in 1..n |-> IF Chance(Seed, i, 1400 + 10 * r + j, 60) THEN R(Seed, i, 1500 + 10 * r + j, -3, 3) ELSE 0]],
      b |-> [r \in 1..m |-> Up(i, 2000 + 700 * r, n, 40)],
      extra |-> R(Seed, i, 6, 0, 1),      \* store explicit zeros everywhere
      unc |-> R(Seed, i, 7, 0, 1),        \* return uncompressed matrices
      lf |-> [j \in 1..(n + m) |-> bk(20 + j)], uf |-> [j \in 1..(n + m) |-> bk(30 + j)],
      l |-> Vec(i, 40, n + m, -5, 0), u |-> Vec(i, 50, n + m, 0, 5),
      s0 |-> [x |-> Vec(i, 60, n, -4, 4), zl |-> Vec(i, 70, n, 0, 4), zu |-> Vec(i, 80, n, 0, 4), lam |-> Vec(i, 90, m, -4, 4)],
      ops |-> <<Op0>> \o ops]

Init == done = FALSE /\ ndJsonSerialize(IOEnv.VH_CASES, [i \in 1..Count |-> Case(i)])
Next == done = FALSE /\ done' = TRUE
=============================================================================
