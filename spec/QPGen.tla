------------------------------- MODULE QPGen --------------------------------
(* Generates QP cases (problem + sequence of solver runs) for the conformance *)
(* drivers.  The families are chosen by Mode; all randomness comes from Seed. *)
EXTENDS Integers, Sequences, FiniteSets, Rng, Json, TLC, IOUtils, SequencesExt

CONSTANTS Seed, Count, Mode, MaxN

VARIABLE done

MinOf2(a, b) == IF a < b THEN a ELSE b

-----------------------------------------------------------------------------
(* random problems                                                            *)

Dims(i) == LET n == R(Seed, i, 1, 1, MaxN) IN [n |-> n, m |-> R(Seed, i, 2, 1, IF n = 1 THEN 3 ELSE 4)]

Small3(i) == \* plain random problem
  LET d == Dims(i)
      n == d.n
      m == d.m
      rank == IF Chance(Seed, i, 3, 45) THEN n ELSE R(Seed, i, 4, 0, n)
      B == [k \in 1..rank |-> [j \in 1..n |-> R(Seed, i, 10 + 4*k + j, -2, 2)]]
      dup == [r \in 1..m |-> r > 1 /\ Chance(Seed, i, 40 + r, 20)]
      raw == [r \in 1..m |-> [j \in 1..n |-> R(Seed, i, 50 + 4*r + j, -2, 2)]]
      A == [r \in 1..m |-> IF dup[r]
               THEN LET s == Pick(Seed, i, 80 + r, <<1, -1, 1, -1>>) o == raw[R(Seed, i, 90 + r, 1, r - 1)]
                    IN [j \in 1..n |-> s * o[j]]
               ELSE raw[r]]
      x0 == [j \in 1..n |-> R(Seed, i, 100 + j, -2, 2)]
      anchored == Chance(Seed, i, 104, 60)   \* bounds built around x0 => feasible
      flat == Chance(Seed, i, 105, 35)       \* q in range of P => never unbounded
      z0 == [j \in 1..n |-> R(Seed, i, 106 + j, -2, 2)]
      q == IF flat
           THEN [j \in 1..n |-> LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE
                     B[k][j] * z0[((k - 1) % n) + 1] + S(k - 1) IN S(Len(B))]
           ELSE [j \in 1..n |-> R(Seed, i, 110 + j, -3, 3)]
      ax(r) == LET RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE A[r][j] * x0[j] + S(j - 1) IN S(n)
      kind == [r \in 1..m |-> Pick(Seed, i, 120 + r, <<"eq", "eq", "le", "le", "ge", "ge", "two", "two", "two", "free">>)]
      c(r) == IF anchored THEN ax(r) ELSE R(Seed, i, 130 + r, -3, 3)
      lo == [r \in 1..m |-> IF kind[r] = "eq" THEN c(r) ELSE c(r) - (IF anchored THEN R(Seed, i, 140 + r, 0, 2) ELSE 0)]
      hi == [r \in 1..m |-> IF kind[r] = "eq" THEN c(r) ELSE c(r) + R(Seed, i, 150 + r, 0, 3)]
  IN [n |-> n, m |-> m, B |-> B, q |-> q, A |-> A,
      lf |-> [r \in 1..m |-> IF kind[r] \in {"le", "free"} THEN 0 ELSE 1],
      uf |-> [r \in 1..m |-> IF kind[r] \in {"ge", "free"} THEN 0 ELSE 1],
      l |-> [r \in 1..m |-> IF kind[r] \in {"le", "free"} THEN 0 ELSE lo[r]],
      u |-> [r \in 1..m |-> IF kind[r] \in {"ge", "free"} THEN 0 ELSE hi[r]]]

(* larger problems come with witnesses of their class: a feasible point x, a   *)
(* stationary point z (Pz + q = 0), a descending ray d, a combination y of the *)
(* rows whose bounds contradict each other                                     *)
Large(i) ==
  LET kind == Pick(Seed, i, 3, <<"strict", "strict", "flat", "flat", "ray", "inf", "inf">>)
      n == R(Seed, i, 1, 4, MaxN)
      m == R(Seed, i, 2, 3, MaxN + 2)
      S(s, pct, lo, hi) == IF Chance(Seed, i, s, pct) THEN R(Seed, i, s + 1, lo, hi) ELSE 0
      dens == Pick(Seed, i, 4, <<25, 50, 80>>)
      jr == R(Seed, i, 5, 1, n)               \* coordinate of the ray
      sr == Pick(Seed, i, 6, <<1, -1>>)
      strict == kind = "strict" \/ (kind = "inf" /\ Chance(Seed, i, 7, 50))
      B0 == TLCEval([k \in 1..R(Seed, i, 8, 1, n) |-> [j \in 1..n |-> IF kind = "ray" /\ j = jr THEN 0 ELSE S(1000 + 40 * k + 2 * j, dens, -2, 2)]])
      B == IF strict THEN [k \in 1..n |-> [j \in 1..n |-> IF j = k THEN 1 ELSE 0]] \o B0 ELSE B0
      Dt(a, b) == LET RECURSIVE T(_) T(k) == IF k = 0 THEN 0 ELSE a[k] * b[k] + T(k - 1) IN T(Len(a))
      z == TLCEval([j \in 1..n |-> R(Seed, i, 20 + j, -1, 1)])
      Bz == TLCEval([k \in DOMAIN B |-> Dt(B[k], z)])
      q == TLCEval([j \in 1..n |-> IF kind = "ray" /\ j = jr THEN -sr * R(Seed, i, 9, 1, 3)
              ELSE IF strict \/ kind = "ray" THEN R(Seed, i, 40 + j, -5, 5) ELSE -Dt([k \in DOMAIN B |-> B[k][j]], Bz)])
      x == TLCEval([j \in 1..n |-> R(Seed, i, 60 + j, -2, 2)])
      A0 == TLCEval([r \in 1..m |-> [j \in 1..n |-> S(3000 + 40 * r + 2 * j, dens, -2, 2)]])
      A == IF kind = "inf" THEN [A0 EXCEPT ![m] = [j \in 1..n |-> A0[1][j] + A0[2][j]]] ELSE A0
      knd == TLCEval([r \in 1..m |-> IF kind = "inf" /\ r \in {1, 2} THEN "le" ELSE IF kind = "inf" /\ r = m THEN "ge"
              ELSE IF kind = "ray" /\ A[r][jr] # 0 THEN (IF sr * A[r][jr] > 0 THEN "ge" ELSE "le")
              ELSE Pick(Seed, i, 80 + r, <<"eq", "le", "le", "ge", "ge", "two", "two", "two", "free">>)])
      c == TLCEval([r \in 1..m |-> Dt(A[r], x)])
      lo == TLCEval([r \in 1..m |-> IF knd[r] = "eq" THEN c[r] ELSE c[r] - R(Seed, i, 100 + r, 0, 2)])
      hi == TLCEval([r \in 1..m |-> IF knd[r] = "eq" THEN c[r] ELSE c[r] + R(Seed, i, 120 + r, 0, 3)])
      l == [r \in 1..m |-> IF knd[r] \in {"le", "free"} THEN 0 ELSE IF kind = "inf" /\ r = m THEN hi[1] + hi[2] + R(Seed, i, 10, 1, 4) ELSE lo[r]]
  IN [p |-> [n |-> n, m |-> m, B |-> B, q |-> q, A |-> A,
             lf |-> [r \in 1..m |-> IF knd[r] \in {"le", "free"} THEN 0 ELSE 1], uf |-> [r \in 1..m |-> IF knd[r] \in {"ge", "free"} THEN 0 ELSE 1],
             l |-> l, u |-> [r \in 1..m |-> IF knd[r] \in {"ge", "free"} THEN 0 ELSE hi[r]]],
      wit |-> [x |-> x, z |-> z, d |-> [j \in 1..n |-> IF kind = "ray" /\ j = jr THEN sr ELSE 0],
               y |-> [r \in 1..m |-> IF kind # "inf" THEN 0 ELSE IF r \in {1, 2} THEN 1 ELSE IF r = m THEN -1 ELSE 0]]]

Base(i) == IF MaxN > 3 THEN Large(i).p ELSE Small3(i)
\* variations are for problems without witnesses
Vary(i, s, pct) == MaxN <= 3 /\ Chance(Seed, i, s, pct)

\* trivially empty bounds: l > u, l = +inf or u = -inf in one row
Empty(i, p) ==
  LET r == R(Seed, i, 160, 1, p.m)
      w == R(Seed, i, 161, 1, 3)
  IN CASE w = 1 -> [p EXCEPT !.lf[r] = 2]
       [] w = 2 -> [p EXCEPT !.uf[r] = 2]
       [] w = 3 -> [p EXCEPT !.lf[r] = 1, !.uf[r] = 1, !.l[r] = 2, !.u[r] = 1]

\* badly scaled rows and cost
RowScale(i, p) ==
  LET f == [r \in 1..p.m |-> Pick(Seed, i, 170 + r, <<1, 1, 10, 30>>)]
  IN [p EXCEPT !.A = [r \in 1..p.m |-> [j \in 1..p.n |-> f[r] * p.A[r][j]]],
               !.l = [r \in 1..p.m |-> f[r] * p.l[r]], !.u = [r \in 1..p.m |-> f[r] * p.u[r]]]

\* strictly convex: add identity rows to B
MakeStrict(p) == [p EXCEPT !.B = [k \in 1..p.n |-> [j \in 1..p.n |-> IF j = k THEN 1 ELSE 0]] \o p.B]

\* no constraints at all
NoRows(p) == [p EXCEPT !.m = 0, !.A = <<>>, !.l = <<>>, !.u = <<>>, !.lf = <<>>, !.uf = <<>>]

-----------------------------------------------------------------------------
(* runs: parameter settings under which the problem is solved.                *)
(* rep: 0 dynamic, 1 sparse, 2 static sizes (where instantiated, else dynamic)*)
(*      3 rows dynamic/columns static, 4 sparse with explicit zeros and       *)
(*      uncompressed storage, 5 dynamic with rows reversed,                   *)
(*      6 dynamic in single precision, 7 sparse in single precision           *)
(* tri: 0 full P, 1 upper triangle only, 2 garbage in the strict lower part   *)
(* ea, er: tolerance exponents (10^-e; 0 = zero tolerance)                    *)
(* maxit: -1 = no limit; mt: 0 none, 1 already expired, 2 one hour            *)
(* ws: 0 none, 1 given wx/wy, 2 result of run wj (zeros if wx/wy empty),      *)
(*     3 solve twice with one solver, second time from its own sol()          *)

Run0 == [rep |-> 0, tri |-> 0, scaling |-> 1, polish |-> 1, ea |-> 3, er |-> 3, stop |-> 25,
         maxit |-> -1, mt |-> 0, alpha |-> 160, rho |-> 100, verbose |-> 0, ws |-> 0, wj |-> 0,
         wx |-> <<>>, wy |-> <<>>, pd |-> 0]

RandRun(i, k) ==
  LET b == 200 + 20 * k
  IN [Run0 EXCEPT !.rep = R(Seed, i, b, 0, 5),
        !.tri = R(Seed, i, b + 1, 0, 2),
        !.scaling = IF Chance(Seed, i, b + 2, 75) THEN 1 ELSE 0,
        !.polish = R(Seed, i, b + 3, 0, 1),
        !.ea = Pick(Seed, i, b + 4, <<3, 3, 3, 4>>),
        !.er = Pick(Seed, i, b + 5, <<3, 3, 3, 4>>),
        !.stop = Pick(Seed, i, b + 6, <<25, 25, 1, 2, 3, 7, 50>>),
        !.alpha = Pick(Seed, i, b + 7, <<160, 160, 100, 180>>),
        !.rho = Pick(Seed, i, b + 8, <<100, 100, 100, 1000>>),
        !.verbose = IF Chance(Seed, i, b + 9, 15) THEN 1 ELSE 0]

\* C: the verdict/optimality family used for Q01..Q04
Sound(i) ==
  LET p0 == Base(i)
      p1 == IF Vary(i, 180, 3) THEN Empty(i, p0) ELSE IF Vary(i, 181, 10) THEN RowScale(i, p0) ELSE p0
      p  == IF Vary(i, 182, 3) THEN NoRows(p1) ELSE p1
      big == \E r \in 1..p.m : \E j \in 1..p.n : p.A[r][j] > 5 \/ p.A[r][j] < -5
      fix(r) == IF big THEN [r EXCEPT !.scaling = 1] ELSE r
      tight == [RandRun(i, 3) EXCEPT !.ea = 5, !.er = Pick(Seed, i, 186, <<0, 5>>), !.maxit = 40000, !.polish = 0]
      single == [RandRun(i, 4) EXCEPT !.rep = R(Seed, i, 187, 6, 7), !.ea = 3, !.er = 3, !.maxit = 20000, !.scaling = 1]
  IN [p |-> p, runs |-> <<[Run0 EXCEPT !.polish = 0], fix(RandRun(i, 1)), fix(RandRun(i, 2)), fix(tight), single>>]

\* budgets (Q05)
Budget(i) ==
  LET p == IF Vary(i, 180, 5) THEN Empty(i, Base(i)) ELSE Base(i)
      r == [RandRun(i, 1) EXCEPT !.rep = R(Seed, i, 190, 0, 1), !.tri = 0]
      k == R(Seed, i, 191, 2, 9)
      s1 == [r EXCEPT !.stop = 1]
      sk == [r EXCEPT !.stop = k]
      Lim(q, l) == [q EXCEPT !.maxit = l]
  IN [p |-> p, k |-> k,
      runs |-> <<s1, sk, [s1 EXCEPT !.mt = 2], [sk EXCEPT !.mt = 2], [s1 EXCEPT !.mt = 1], [sk EXCEPT !.mt = 1],
                 Lim(sk, 0), Lim(sk, 1), Lim(sk, 2), Lim(sk, R(Seed, i, 192, 3, 12)), Lim(sk, R(Seed, i, 193, 10, 60)),
                 Lim(s1, R(Seed, i, 194, 1, 12)), Lim(s1, R(Seed, i, 195, 10, 60)),
                 [Lim(sk, R(Seed, i, 196, 1, 30)) EXCEPT !.mt = 2],
                 [r EXCEPT !.stop = 50]>>]

\* representations (Q07)
Reps(i) ==
  LET p0 == Base(i)
      p == IF Vary(i, 183, 60) THEN MakeStrict(p0) ELSE p0
      r == [Run0 EXCEPT !.polish = R(Seed, i, 190, 0, 1), !.ea = 5, !.er = 5, !.maxit = 100000]
  IN [p |-> p,
      runs |-> [k \in 1..10 |-> [r EXCEPT !.rep = <<0, 0, 0, 1, 1, 1, 2, 3, 4, 5>>[k],
                                          !.tri = <<0, 1, 2, 0, 1, 2, R(Seed, i, 198, 0, 2), R(Seed, i, 199, 0, 2), R(Seed, i, 197, 0, 2), 0>>[k],
                                          !.verbose = IF k = 9 THEN 1 ELSE 0]]
               \o <<[r EXCEPT !.scaling = 0], [r EXCEPT !.scaling = 0, !.rep = 1, !.tri = 1]>>]

\* warm starts (Q08)
Warm(i) ==
  LET p0 == Base(i)
      p == IF Vary(i, 183, 50) THEN MakeStrict(p0) ELSE p0
      rep == R(Seed, i, 190, 0, 2)
      r == [Run0 EXCEPT !.polish = R(Seed, i, 191, 0, 1), !.rep = rep, !.ea = 5, !.er = 5, !.maxit = 100000,
                        !.stop = Pick(Seed, i, 194, <<25, 10, 1>>)]
      wx == [j \in 1..p.n |-> R(Seed, i, 300 + j, -4, 4)]
      wy == [j \in 1..p.m |-> IF p.lf[j] = 0 /\ p.uf[j] = 0 THEN 0
                              ELSE IF p.lf[j] = 0 THEN R(Seed, i, 310 + j, 0, 3)
                              ELSE IF p.uf[j] = 0 THEN R(Seed, i, 310 + j, -3, 0)
                              ELSE R(Seed, i, 310 + j, -3, 3)]
  IN [p |-> p,
      runs |-> <<r, [r EXCEPT !.ws = 2, !.wj = 1], [r EXCEPT !.ws = 3],
                 [r EXCEPT !.ws = 1, !.wx = wx, !.wy = [j \in 1..p.m |-> 0]],
                 [r EXCEPT !.ws = 1, !.wx = [j \in 1..p.n |-> 0], !.wy = wy],
                 [r EXCEPT !.ws = 1, !.wx = wx, !.wy = wy],
                 [r EXCEPT !.ws = 2, !.wj = 1, !.rep = (rep + 1) % 3],
                 [r EXCEPT !.ws = 1, !.wx = wx, !.wy = wy, !.scaling = 0]>>]

\* polishing (Q09)
Polish(i) ==
  LET p0 == Base(i)
      p == IF Chance(Seed, i, 183, 80) THEN MakeStrict(p0) ELSE p0
      rep == R(Seed, i, 190, 0, 5)
      tri == R(Seed, i, 191, 0, 2)
      r == [RandRun(i, 1) EXCEPT !.rep = rep, !.tri = tri, !.maxit = 100000]
  IN [p |-> p,
      runs |-> <<[r EXCEPT !.polish = 0], [r EXCEPT !.polish = 1],
                 [r EXCEPT !.polish = 1, !.rep = R(Seed, i, 192, 0, 5), !.verbose = 1],
                 [r EXCEPT !.polish = 1, !.pd = 2], [r EXCEPT !.polish = 1, !.pd = 4],
                 [r EXCEPT !.polish = 1, !.ea = 5, !.er = 5, !.rep = 1]>>]

\* the same problems as NLPs (N02): the first n rows are the variable bounds
Nlp(i) ==
  LET b0 == Base(i)
      b == IF Chance(Seed, i, 183, 60) THEN MakeStrict(b0) ELSE b0
      m0 == IF Chance(Seed, i, 184, 25) THEN 0 ELSE MinOf2(b.m, IF Chance(Seed, i, 185, 10) THEN 4 ELSE b.n)
      \* (Ipopt itself cannot handle problems without any free variable)
      kind == [j \in 1..b.n |-> Pick(Seed, i, 400 + j, <<"free", "free", "lo", "up", "two", "two", IF j = 1 THEN "two" ELSE "fix">>)]
      lo == [j \in 1..b.n |-> R(Seed, i, 410 + j, -3, 1)]
      id == [j \in 1..b.n |-> [c \in 1..b.n |-> IF c = j THEN 1 ELSE 0]]
      p == [b EXCEPT !.m = b.n + m0, !.A = id \o SubSeq(b.A, 1, m0),
                     !.lf = [j \in 1..b.n |-> IF kind[j] \in {"free", "up"} THEN 0 ELSE 1] \o SubSeq(b.lf, 1, m0),
                     !.uf = [j \in 1..b.n |-> IF kind[j] \in {"free", "lo"} THEN 0 ELSE 1] \o SubSeq(b.uf, 1, m0),
                     !.l = [j \in 1..b.n |-> IF kind[j] \in {"free", "up"} THEN 0 ELSE lo[j]] \o SubSeq(b.l, 1, m0),
                     !.u = [j \in 1..b.n |-> IF kind[j] \in {"free", "lo"} THEN 0 ELSE IF kind[j] = "fix" THEN lo[j] ELSE lo[j] + R(Seed, i, 420 + j, 1, 4)]
                           \o SubSeq(b.u, 1, m0)]
      r0 == [plain |-> 0, opt |-> 0, ws |-> 0, maxit |-> 250, rv |-> 0, extra |-> 0]
  IN [p |-> p,
      runs |-> <<r0, [r0 EXCEPT !.opt = 1], [r0 EXCEPT !.opt = 2], [r0 EXCEPT !.plain = 1, !.rv = 1], [r0 EXCEPT !.plain = 1, !.opt = 2, !.extra = 1],
                 [r0 EXCEPT !.opt = 1, !.ws = 2], [r0 EXCEPT !.opt = 1, !.maxit = R(Seed, i, 430, 0, 6)],
                 [r0 EXCEPT !.maxit = R(Seed, i, 431, 0, 6), !.ws = R(Seed, i, 432, 0, 1)]>>]

Case(i) == LET c == CASE Mode = "sound" -> Sound(i)
                      [] Mode = "budget" -> Budget(i)
                      [] Mode = "reps" -> Reps(i)
                      [] Mode = "warm" -> Warm(i)
                      [] Mode = "polish" -> Polish(i)
                      [] Mode = "nlp" -> Nlp(i)
           IN [id |-> i] @@ c @@ (IF MaxN > 3 /\ Mode # "nlp" THEN [wit |-> Large(i).wit] ELSE [nowit |-> 0])

-----------------------------------------------------------------------------
(* exhaustive family: every QP with one variable and at most two rows over a  *)
(* small coefficient set                                                      *)
RowSet == {[a |-> a, lf |-> b[1], l |-> b[2], uf |-> b[3], u |-> b[4]] :
             a \in {-1, 0, 2},
             b \in {<<0, 0, 0, 0>>, <<0, 0, 1, 1>>, <<0, 0, 1, -1>>, <<1, 1, 0, 0>>, <<1, -1, 0, 0>>,
                    <<1, 1, 1, 1>>, <<1, 0, 1, 0>>, <<1, -1, 1, 2>>, <<1, 1, 1, 3>>}}
CostSet == {0, 1, 2} \X {-2, 0, 1}

Small == {[n |-> 1, m |-> Len(rs), B |-> IF c[1] = 0 THEN <<>> ELSE <<<<c[1]>>>>, q |-> <<c[2]>>,
           A |-> [k \in 1..Len(rs) |-> <<rs[k].a>>],
           lf |-> [k \in 1..Len(rs) |-> rs[k].lf], l |-> [k \in 1..Len(rs) |-> rs[k].l],
           uf |-> [k \in 1..Len(rs) |-> rs[k].uf], u |-> [k \in 1..Len(rs) |-> rs[k].u]]
          : c \in CostSet, rs \in ({<<>>} \cup {<<a>> : a \in RowSet} \cup {<<a, b>> : a \in RowSet, b \in RowSet})}

SmallSeq == LET s == SetToSeq(Small)
            IN [i \in 1..Len(s) |-> [id |-> i, p |-> s[i],
                  runs |-> <<[Run0 EXCEPT !.polish = 0, !.scaling = i % 2],
                             [Run0 EXCEPT !.rep = i % 5, !.scaling = (i \div 2) % 2, !.stop = <<25, 1, 10>>[(i % 3) + 1],
                                          !.tri = i % 3]>>]]

Out == IOEnv.VH_CASES

Init == /\ done = FALSE
        /\ ndJsonSerialize(Out, IF Mode = "small" THEN SmallSeq ELSE [i \in 1..Count |-> Case(i)])
Next == done = FALSE /\ done' = TRUE
=============================================================================
