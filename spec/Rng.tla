--------------------------------- MODULE Rng ---------------------------------
(* Counter-based pseudo random numbers for case generation: a pure function of *)
(* (seed, stream, counter), so a generated case never depends on TLC's own     *)
(* scheduling or version.  All arithmetic stays below 2^31.                    *)
EXTENDS Integers, Sequences

LcgM == 2147483647

\* Schrage's method: 16807 * x mod (2^31 - 1) without overflow
Lcg(x) ==
  LET hi == x \div 127773
      lo == x % 127773
      t  == 16807 * lo - 2836 * hi
  IN IF t > 0 THEN t ELSE t + LcgM

\* non-linear mixing: product of the two 15/16-bit halves folded into the LCG
Mix(x) ==
  LET h == x \div 65536
      lo == x % 65536
      y == Lcg(x + 1) \div 2
      z == y + (h * lo) \div 2
  IN Lcg((z % (LcgM - 1)) + 1)

\* hash of seed s, stream i and counter k
H(s, i, k) == Mix(Mix(Mix((((s % 9973) * 65537) + (i * 12979)) % LcgM) \div 2 + (k * 7919)))

\* integer in lo..hi
R(s, i, k, lo, hi) == lo + ((H(s, i, k) \div 64) % (hi - lo + 1))

\* true with probability pct / 100
Chance(s, i, k, pct) == R(s, i, k, 0, 99) < pct

\* one element of a sequence
Pick(s, i, k, q) == q[R(s, i, k, 1, Len(q))]
=============================================================================
