------------------------------ MODULE MpcDesign -----------------------------
(* Ownership and caching inside the controllers.  The desired trajectories     *)
(* live on the heap and are referred to by the controller and by its integrand;*)
(* the cost of the internal QP is only rewritten when weights have changed.    *)
(* The abstract controller (`abs`: what MpcTrace keeps) is just references and *)
(* weights; every call must use exactly those.                                 *)
EXTENDS Integers, FiniteSets
CONSTANTS Slots, Heap, NRef, NW
VARIABLES heap, con, abs, used
vars == <<heap, con, abs, used>>
Ids == 1..Heap
S == 1..Slots
Dead == [alive |-> FALSE, p |-> 0, gp |-> 0, w |-> 0, qw |-> 0, dirty |-> FALSE]
ADead == [alive |-> FALSE, r |-> 0, w |-> 0]
Live == {s \in S : con[s].alive}
Reach == {con[s].p : s \in Live} \cup {con[s].gp : s \in Live}
FreeId == {i \in Ids : i \notin Reach}
Init == heap = [i \in Ids |-> 0] /\ con = [s \in S |-> Dead] /\ abs = [s \in S |-> ADead] /\ used = <<0, 0, 0, 0>>
Least(X) == CHOOSE i \in X : \A j \in X : i <= j
Construct(s) ==
  /\ FreeId # {}
  /\ LET i == Least(FreeId) IN
     /\ heap' = [heap EXCEPT ![i] = 0]
     /\ con' = [con EXCEPT ![s] = [alive |-> TRUE, p |-> i, gp |-> i, w |-> 0, qw |-> 0, dirty |-> FALSE]]
  /\ abs' = [abs EXCEPT ![s] = [alive |-> TRUE, r |-> 0, w |-> 0]] /\ UNCHANGED used
SetRef(s, r) == s \in Live /\ heap' = [heap EXCEPT ![con[s].p] = r] /\ abs' = [abs EXCEPT ![s].r = r] /\ UNCHANGED <<con, used>>
SetW(s, w) == s \in Live /\ con' = [con EXCEPT ![s].w = w, ![s].dirty = TRUE] /\ abs' = [abs EXCEPT ![s].w = w] /\ UNCHANGED <<heap, used>>
\* what the answer is computed from: reference of the controller, reference of the cost, weights of the QP
Call(s) == /\ s \in Live
           /\ con' = [con EXCEPT ![s].qw = IF con[s].dirty THEN con[s].w ELSE @, ![s].dirty = FALSE]
           /\ used' = <<s, heap[con[s].p], heap[con[s].gp], con'[s].qw>> /\ UNCHANGED <<heap, abs>>
Copy(s, t) == /\ s # t /\ s \in Live /\ FreeId # {}
              /\ LET i == Least(FreeId) IN
                 /\ heap' = [heap EXCEPT ![i] = heap[con[s].p]]
                 /\ con' = [con EXCEPT ![t] = [con[s] EXCEPT !.p = i, !.gp = i]]
              /\ abs' = [abs EXCEPT ![t] = abs[s]] /\ UNCHANGED used
Move(s, t) == /\ s # t /\ s \in Live /\ con' = [con EXCEPT ![t] = con[s], ![s] = Dead]
              /\ abs' = [abs EXCEPT ![t] = abs[s], ![s] = ADead] /\ UNCHANGED <<heap, used>>
Next == \E s \in S : Construct(s) \/ Call(s) \/ (\E r \in 0..NRef : SetRef(s, r)) \/ (\E w \in 0..NW : SetW(s, w)) \/ (\E t \in S : Copy(s, t) \/ Move(s, t))
Spec == Init /\ [][Next]_vars
\* refinement of the abstract controller
SameLife == \A s \in S : con[s].alive = abs[s].alive
Current == \A s \in Live : heap[con[s].p] = abs[s].r /\ heap[con[s].gp] = abs[s].r /\ con[s].w = abs[s].w /\ (~con[s].dirty => con[s].qw = abs[s].w)
NotShared == \A s, t \in Live : s # t => con[s].p # con[t].p
Answers == [][\A s \in S : (used' # used /\ used'[1] = s) => used'[2] = abs[s].r /\ used'[3] = abs[s].r /\ used'[4] = abs[s].w]_vars
=============================================================================
