------------------------------ MODULE OsqpGen -------------------------------
(* Problems, parameters and scripted behaviours of the OSQP library.           *)
EXTENDS Integers, Sequences, Rng, Json, TLC, IOUtils
CONSTANTS Seed, Count
VARIABLE done
Sp(i, s, pct, m) == IF Chance(Seed, i, s, pct) THEN R(Seed, i, s + 1, -m, m) ELSE 0
Case(i) ==
  LET kind == R(Seed, i, 1, 0, 4)
      n == CASE kind = 2 -> 2 [] kind = 3 -> 1 [] kind = 4 -> 2 [] OTHER -> R(Seed, i, 2, 1, 4)
      m == CASE kind = 2 -> 2 [] kind = 3 -> 3 [] OTHER -> R(Seed, i, 3, 0, 4)
      P(s) == R(Seed, i, s, 1, 1023)
  IN [id |-> i, kind |-> kind, n |-> n, m |-> m, room |-> R(Seed, i, 4, 0, 1),
      P |-> [a \in 1..n |-> [b \in 1..n |-> Sp(i, 100 + 20 * a + 2 * b, 60, 5)]],
      A |-> [a \in 1..m |-> [b \in 1..n |-> Sp(i, 200 + 20 * a + 2 * b, 60, 5)]],
      q |-> [a \in 1..n |-> R(Seed, i, 300 + a, -5, 5)],
      l |-> [a \in 1..m |-> IF Chance(Seed, i, 310 + a, 25) THEN -99 ELSE R(Seed, i, 320 + a, -5, 0)],
      u |-> [a \in 1..m |-> IF Chance(Seed, i, 330 + a, 25) THEN 99 ELSE R(Seed, i, 340 + a, 0, 5)],
      warm |-> R(Seed, i, 5, 0, 1), wx |-> [a \in 1..n |-> R(Seed, i, 350 + a, -9, 9)], wy |-> [a \in 1..m |-> R(Seed, i, 360 + a, -9, 9)],
      prm |-> [verbose |-> R(Seed, i, 10, 0, 1), alpha |-> 1024 + P(11), rho |-> P(12), sigma |-> P(13), scaling |-> R(Seed, i, 14, 0, 1), eps_abs |-> P(15), eps_rel |-> P(16),
               eps_pi |-> P(17), eps_di |-> P(18), delta |-> P(19), check |-> R(Seed, i, 20, 1, 99), polish |-> R(Seed, i, 21, 0, 1), refine |-> R(Seed, i, 22, 0, 9),
               iter |-> IF Chance(Seed, i, 23, 40) THEN -1 ELSE IF Chance(Seed, i, 24, 10) THEN 0 ELSE R(Seed, i, 25, 1, 5000),
               time |-> IF Chance(Seed, i, 26, 40) THEN -1 ELSE Pick(Seed, i, 27, <<0, 1, 2500, 1000000, 90000000>>)],
      script |-> [setup |-> Pick(Seed, i, 30, <<"ok", "ok", "ok", "ok", "ok", "ok", "invalid", "partial">>), ret |-> IF Chance(Seed, i, 31, 15) THEN 1 ELSE 0,
                  status |-> Pick(Seed, i, 32, <<1, 1, 1, 1, -3, -4, -2, -6, 2, 3, 4, -5, -7, -10>>), iter |-> R(Seed, i, 33, 1, 900), obj |-> R(Seed, i, 34, -50, 50),
                  x |-> [a \in 1..n |-> R(Seed, i, 370 + a, -9, 9)], y |-> [a \in 1..m |-> R(Seed, i, 380 + a, -9, 9)]]]
Init == done = FALSE /\ ndJsonSerialize(IOEnv.VH_CASES, [i \in 1..Count |-> Case(i)])
Next == done = FALSE /\ done' = TRUE
=============================================================================
