------------------------------ MODULE MeshGen -------------------------------
(* Mesh histories.  tpl: template parameters <<Kmin, Kmax>>; n, k: constructor *)
(* (n = -1: default constructor); ops address interval i modulo the current    *)
(* number of intervals.                                                        *)
EXTENDS Integers, Sequences, Rng, Json, TLC, IOUtils
CONSTANTS Seed, Count, MaxOps
VARIABLE done

Tpl == <<<<1, 1>>, <<1, 2>>, <<2, 4>>, <<3, 3>>, <<4, 6>>, <<5, 10>>, <<1, 5>>, <<2, 2>>>>

Op(i, s, t) ==
  LET o == Pick(Seed, i, s, <<"ph", "ph", "ph", "err", "err", "set", "inc", "dec", "copy">>) IN
  [o |-> o, i |-> R(Seed, i, s + 1, 0, 6),
   d |-> CASE o = "ph" -> R(Seed, i, s + 2, 0, IF Chance(Seed, i, s + 3, 70) THEN t[2] + 1 ELSE 3 * t[1] + t[2])
           [] o = "set" -> R(Seed, i, s + 2, t[1], t[2] + 1)
           [] OTHER -> 0,
   e |-> IF o = "err" THEN [j \in 1..R(Seed, i, s + 4, 1, 3) |-> Pick(Seed, i, s + 5 + j, <<0, 0, 1, 1, 2, 3, 5, 7, 11, 30, 200, 5000>>)] ELSE <<>>,
   tgt |-> R(Seed, i, s + 9, 0, 20)]

Case(i) == LET t == Tpl[1 + (i % 8)] IN
  [id |-> i, tpl |-> t, n |-> Pick(Seed, i, 1, <<-1, 0, 1, 2, 2, 3, 4, 5>>), k |-> R(Seed, i, 2, t[1], t[2] + 1),
   ops |-> [j \in 1..R(Seed, i, 3, 0, MaxOps) |-> Op(i, 20 * j, t)],
   \* interpolation: values at the interval ends, coefficients of the bubble polynomials, both cyclic
   y |-> [j \in 1..5 |-> R(Seed, i, 300 + j, -3, 3)], q |-> [j \in 1..4 |-> R(Seed, i, 310 + j, -2, 2)],
   ext |-> R(Seed, i, 4, 0, 1), p |-> R(Seed, i, 5, 0, 2),
   \* lookups at num/den
   ts |-> [j \in 1..6 |-> <<R(Seed, i, 320 + j, -2, 20), Pick(Seed, i, 330 + j, <<16, 8, 12, 15, 1, 2>>)>>]]

Init == done = FALSE /\ ndJsonSerialize(IOEnv.VH_CASES, [i \in 1..Count |-> Case(i)])
Next == done = FALSE /\ done' = TRUE
=============================================================================
