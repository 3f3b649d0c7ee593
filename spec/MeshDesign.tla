----------------------------- MODULE MeshDesign -----------------------------
(* Exhaustive exploration of the mesh state machine for small parameters.      *)
EXTENDS MeshModel
CONSTANTS Kmin, Kmax, MaxIvals, MaxD
VARIABLES ms, last
vars == <<ms, last>>

Init == /\ ms \in {New(n, k) : n \in 0..3, k \in Kmin..(Kmax + 1)} /\ last = <<"new", <<>>, 0>>
Ph == \E i \in DOMAIN ms, d \in 1..MaxD : ms' = RefinePh(ms, i, d, Kmin, Kmax) /\ last' = <<"ph", ms, i>>
Er == \E es \in [DOMAIN ms -> {0, 1, 3, 40}] : ms' = RefineErr(ms, es, Len(ms), Kmin, Kmax) /\ last' = <<"err", ms, 0>>
St == \E i \in DOMAIN ms, k \in Kmin..(Kmax + 1) : ms' = SetK(ms, i, k) /\ last' = <<"set", ms, i>>
Ic == ms' = Inc(ms, Kmax) /\ last' = <<"inc", ms, 0>>
Dc == ms' = Dec(ms, Kmin) /\ last' = <<"dec", ms, 0>>
Next == Ph \/ Er \/ St \/ Ic \/ Dc
Spec == Init /\ [][Next]_vars
Bound == Len(ms) <= MaxIvals

IsPartition == Partition(ms)
DegreesInRange == Degrees(ms, Kmin, Kmax)
Ends(s) == {s[i].a : i \in DOMAIN s} \cup {<<1, 1>>}
\* refinement only adds points, and only inside the addressed interval
OnlyAdds == last[1] # "new" => Ends(last[2]) \subseteq Ends(ms)
Addressed == last[1] \in {"ph", "set"} =>
  \A i \in DOMAIN last[2] : i # last[3] => last[2][i] \in {ms[j] : j \in DOMAIN ms}
=============================================================================
