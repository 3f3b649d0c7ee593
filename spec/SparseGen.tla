----------------------------- MODULE SparseGen ------------------------------
(* Histories of block operations on a sparse matrix, and chain-rule cases.    *)
(* A case: rows, cols, major (0 column, 1 row), comp (1 compressed at start), *)
(* init: stored entries <<r, c, v>>; ops: sequence of operations (see Op0).   *)
EXTENDS Integers, Sequences, FiniteSets, Rng, Json, TLC, IOUtils, SequencesExt

CONSTANTS Seed, Count, Mode
VARIABLE done

(* kind of the source: 0 dense, 1 sparse column major, 2 sparse row major,    *)
(* 3 dense expression, 4 transposed sparse, 5 block of a larger sparse matrix *)
Op0 == [a |-> "add", r0 |-> 0, c0 |-> 0, h |-> 0, w |-> 0, src |-> <<>>, mask |-> <<>>, kind |-> 0, scale |-> 1, up |-> 0, n |-> 0]

GenOp(i, k, rows, cols) ==
  LET s == 1000 * k
      a == Pick(Seed, i, s, <<"add", "add", "add", "write", "write", "write", "addI", "writeI", "zero", "zeroBlock", "compress", "uncompress">>)
      h == R(Seed, i, s + 1, 1, rows)
      w == R(Seed, i, s + 2, 1, cols)
      r0 == R(Seed, i, s + 3, 0, rows - h)
      c0 == R(Seed, i, s + 4, 0, cols - w)
      n == R(Seed, i, s + 5, 0, IF h < w THEN h ELSE w)
  IN [a |-> a, r0 |-> r0, c0 |-> c0, h |-> h, w |-> w,
      src |-> IF a \in {"add", "write"} THEN [x \in 1..h |-> [y \in 1..w |-> R(Seed, i, s + 10 + 8 * x + y, -2, 2)]] ELSE <<>>,
      mask |-> IF a \in {"add", "write"} THEN [x \in 1..h |-> [y \in 1..w |-> IF Chance(Seed, i, s + 100 + 8 * x + y, 70) THEN 1 ELSE 0]] ELSE <<>>,
      kind |-> R(Seed, i, s + 6, 0, 5),
      scale |-> Pick(Seed, i, s + 7, <<1, 1, 1, -1, 2, 0, 3>>),
      up |-> Pick(Seed, i, s + 8, <<0, 0, 1>>), n |-> n]

History(i) ==
  LET rows == R(Seed, i, 1, 1, 4)
      cols == R(Seed, i, 2, 1, 4)
      d == Pick(Seed, i, 3, <<0, 30, 60, 100>>)
      cells == SetToSeq({<<r, c>> \in (0..(rows-1)) \X (0..(cols-1)) : Chance(Seed, i, 10 + 7 * r + c, d)})
  IN [id |-> i, rows |-> rows, cols |-> cols, major |-> i % 2, comp |-> R(Seed, i, 4, 0, 1),
      init |-> [j \in 1..Len(cells) |-> <<cells[j][1], cells[j][2], R(Seed, i, 50 + j, -3, 3)>>],
      ops |-> [k \in 1..R(Seed, i, 5, 4, 10) |-> GenOp(i, k, rows, cols)]]

(* every single operation on a 2 x 3 matrix for all positions, shapes, sources *)
SmallOps ==
  {[Op0 EXCEPT !.a = a, !.r0 = b[1], !.c0 = b[2], !.h = b[3], !.w = b[4], !.kind = kd, !.scale = sc, !.up = up,
               !.src = [x \in 1..b[3] |-> [y \in 1..b[4] |-> x + 2 * y - 4]], !.mask = [x \in 1..b[3] |-> [y \in 1..b[4] |-> (x + y) % 2]]] :
      a \in {"add", "write"}, b \in {b \in (0..1) \X (0..2) \X (1..2) \X (1..3) : b[1] + b[3] <= 2 /\ b[2] + b[4] <= 3},
      kd \in 0..5, sc \in {-1, 0, 2}, up \in {0, 1}} \cup
  {[Op0 EXCEPT !.a = a, !.r0 = b[1], !.c0 = b[2], !.n = b[3], !.scale = sc] :
      a \in {"addI", "writeI"}, b \in {b \in (0..1) \X (0..2) \X (0..2) : b[1] + b[3] <= 2 /\ b[2] + b[3] <= 3}, sc \in {-1, 0, 2}} \cup
  {[Op0 EXCEPT !.a = a, !.r0 = b[1], !.c0 = b[2], !.h = b[3], !.w = b[4]] :
      a \in {"zeroBlock"}, b \in {b \in (0..1) \X (0..2) \X (1..2) \X (1..3) : b[1] + b[3] <= 2 /\ b[2] + b[4] <= 3}} \cup
  {[Op0 EXCEPT !.a = "zero"]}

SmallInits == <<<<>>, <<<<0, 0, 1>>, <<0, 2, 0>>, <<1, 0, -2>>, <<1, 1, 3>>>>,
               <<<<0, 0, 1>>, <<0, 1, 2>>, <<0, 2, 3>>, <<1, 0, 4>>, <<1, 1, 0>>, <<1, 2, 6>>>>>>

Small == LET o == SetToSeq(SmallOps)
             n == Len(o)
         IN [i \in 1..(n * 12) |->
              LET op == o[((i - 1) % n) + 1]
                  v == (i - 1) \div n
              IN [id |-> i, rows |-> 2, cols |-> 3, major |-> v % 2, comp |-> (v \div 2) % 2,
                  init |-> SmallInits[(v \div 4) + 1], ops |-> <<op>>]]

(* chain rule cases: f: Ny -> No, g: Nx -> Ny                                   *)
Mat(i, s, r, c, d) == [x \in 1..r |-> [y \in 1..c |-> IF Chance(Seed, i, s + 40 * x + y, d) THEN R(Seed, i, s + 5000 + 40 * x + y, -3, 3) ELSE 0]]
Fog(i) ==
  LET No == R(Seed, i, 1, 1, 3)
      Ny == R(Seed, i, 2, 1, 3)
      Nx == R(Seed, i, 3, 1, 3)
      d == Pick(Seed, i, 4, <<100, 70, 40>>)
      r0 == R(Seed, i, 5, 0, 2)
      c0 == R(Seed, i, 6, 0, 2)
      rows == r0 + Nx + R(Seed, i, 7, 0, 1)
      cols == c0 + No * Nx + R(Seed, i, 8, 0, 1)
  IN [id |-> i, No |-> No, Ny |-> Ny, Nx |-> Nx, r0 |-> r0, c0 |-> c0, rows |-> rows, cols |-> cols,
      kind |-> R(Seed, i, 9, 0, 3), comp |-> R(Seed, i, 10, 0, 1),
      Jf |-> Mat(i, 1000, No, Ny, d), Hf |-> Mat(i, 2000, Ny, No * Ny, d),
      Jg |-> Mat(i, 3000, Ny, Nx, d), Hg |-> Mat(i, 4000, Nx, Ny * Nx, d),
      pre |-> Mat(i, 6000, rows, cols, Pick(Seed, i, 11, <<0, 50, 100>>)), dflt |-> R(Seed, i, 12, 0, 1)]

Out == IOEnv.VH_CASES
Init == /\ done = FALSE
        /\ ndJsonSerialize(Out, CASE Mode = "small" -> Small
                                  [] Mode = "history" -> [i \in 1..Count |-> History(i)]
                                  [] Mode = "fog" -> [i \in 1..Count |-> Fog(i)])
Next == done = FALSE /\ done' = TRUE
=============================================================================
