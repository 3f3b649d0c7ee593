------------------------------ MODULE TimeGen -------------------------------
(* Histories of time arithmetic: start instant and a sequence of increments.  *)
(* Times are pairs <<seconds, nanoseconds>> with 0 <= nanoseconds < 10^9.     *)
EXTENDS Integers, Sequences, Rng, Json, TLC, IOUtils
CONSTANTS Seed, Count, NTypes
VARIABLE done

G == 1000000000
\* types: 0 double 1 long double 2 float 3 duration<double> 4 duration<double, milli> 5 nanoseconds 6 microseconds
\* 7 milliseconds 8 seconds 9 duration<int, ratio<1,10>> 10 minutes 11 steady_clock 12 system_clock
\* 13 system_clock in milliseconds 14 duration<float> 15 steady_clock with double seconds 16 rclcpp::Time
\* resolution in seconds/nanoseconds; float types use multiples of 1/8 s below 1000 s
Res(ty) == CASE ty \in {5, 11, 12, 16} -> <<0, 1>> [] ty = 6 -> <<0, 1000>> [] ty \in {7, 13} -> <<0, 1000000>>
             [] ty = 8 -> <<1, 0>> [] ty = 9 -> <<0, 100000000>> [] ty = 10 -> <<60, 0>> [] OTHER -> <<0, 0>>
Small(ty) == ty \in {2, 14}

Start(i, ty) ==
  LET r == Res(ty) IN
  IF Small(ty) THEN <<R(Seed, i, 1, -500, 500), 125000000 * R(Seed, i, 2, 0, 7)>>
  ELSE LET s == Pick(Seed, i, 1, <<0, 0, -5, 7, 1000003, -86400, IF ty \in {11, 12, 13, 16} THEN 1600000000 ELSE 999999>>)
       IN IF r[1] > 0 THEN <<(IF s > 30000000 THEN s ELSE s * r[1]), 0>>
          ELSE <<s, IF r[2] = 0 THEN 1000000 * R(Seed, i, 2, 0, 999) ELSE r[2] * R(Seed, i, 2, 0, (G \div r[2]) - 1)>>

Inc(i, k, ty) ==
  LET b == 100 + 10 * k IN
  IF Small(ty) THEN <<R(Seed, i, b, -20, 20), 125000000 * R(Seed, i, b + 1, 0, 7)>>
  ELSE LET s == Pick(Seed, i, b, <<0, 0, 0, -1, -1, 1, 12, -12, 86400, -86401, 300000, 59, 61, -60>>)
       IN <<s, Pick(Seed, i, b + 1, <<0, 1, 999, 1000, 500000000, 300000000, 700000000, 999999999, 1500000, 250000000,
                                     R(Seed, i, b + 2, 0, G - 1), 1000 * R(Seed, i, b + 3, 0, 999999), 1000000 * R(Seed, i, b + 4, 0, 999)>>)>>

Case(i) == LET ty == i % NTypes IN
  [id |-> i, ty |-> ty, res |-> Res(ty), t0 |-> Start(i, ty), inc |-> [k \in 1..R(Seed, i, 3, 1, 5) |-> Inc(i, k, ty)]]

Init == done = FALSE /\ ndJsonSerialize(IOEnv.VH_CASES, [i \in 1..Count |-> Case(i)])
Next == done = FALSE /\ done' = TRUE
=============================================================================
