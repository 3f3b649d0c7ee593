------------------------------- MODULE QPLife -------------------------------
(* Life cycle of QPSolver objects (slots).  A solver is constructed, told the  *)
(* structure of the problems to come (analyze), solves problems of that        *)
(* structure, and is copied, moved and assigned.  The abstract state of a slot *)
(* holds nothing that could influence the answer of a later solve except its   *)
(* parameters and its structure: the answer to Solve is a function of problem, *)
(* parameters and warm start only (property Q06).                              *)
(* Problems 1..NP come in structures: problem p has structure Struct(p).       *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Slots,      \* number of solver objects
          NStruct,    \* number of different structures
          PerStruct,  \* problems per structure
          NPrm        \* number of parameter sets

VARIABLES slot        \* slot[s] = [alive, struct, prm, last]
                      \* struct: 0 = nothing analyzed; last: number of the operation that produced sol(), 0 = none

SlotIds == 1..Slots
Problems == 1..(NStruct * PerStruct)
Struct(p) == ((p - 1) \div PerStruct) + 1

Dead == [alive |-> FALSE, struct |-> 0, prm |-> 0, last |-> 0]
InitSlots == [s \in SlotIds |-> Dead]

(* Operations: records [a: name, s: slot, t: other slot, p: problem, r: params, w: warm start]   *)
(* w: 0 none, 1 own sol(), 2 sol() of slot t                                                      *)
Op(a, s, t, p, r, w) == [a |-> a, s |-> s, t |-> t, p |-> p, r |-> r, w |-> w]

CanWarm(o) == LET src == IF o.w = 1 THEN slot[o.s] ELSE slot[o.t]
              IN IF o.w = 0 THEN TRUE ELSE src.alive /\ src.last > 0 /\ src.struct = Struct(o.p)

Enabled(o) ==
  CASE o.a = "construct" -> TRUE
    [] o.a = "create"    -> TRUE
    [] o.a = "analyze"   -> slot[o.s].alive
    [] o.a = "solve"     -> slot[o.s].alive /\ slot[o.s].struct = Struct(o.p) /\ CanWarm(o)
    [] o.a \in {"copy", "move"} -> o.s # o.t /\ slot[o.t].alive
    [] o.a \in {"copyassign", "moveassign"} -> o.s # o.t /\ slot[o.s].alive /\ slot[o.t].alive
    [] o.a = "selfassign" -> slot[o.s].alive
    [] o.a = "destroy"   -> slot[o.s].alive

\* i: number of this operation
Effect(o, i) ==
  CASE o.a = "construct" -> [slot EXCEPT ![o.s] = [alive |-> TRUE, struct |-> Struct(o.p), prm |-> o.r, last |-> 0]]
    [] o.a = "create"    -> [slot EXCEPT ![o.s] = [alive |-> TRUE, struct |-> 0, prm |-> o.r, last |-> 0]]
    [] o.a = "analyze"   -> [slot EXCEPT ![o.s].struct = Struct(o.p), ![o.s].last = 0]
    [] o.a = "solve"     -> [slot EXCEPT ![o.s].last = i]
    [] o.a \in {"copy", "copyassign"} -> [slot EXCEPT ![o.s] = slot[o.t]]
    [] o.a \in {"move", "moveassign"} -> [slot EXCEPT ![o.s] = slot[o.t], ![o.t] = Dead]
    [] o.a = "selfassign" -> slot
    [] o.a = "destroy"   -> [slot EXCEPT ![o.s] = Dead]

AllOps ==
  {Op("construct", s, 0, p, r, 0) : s \in SlotIds, p \in Problems, r \in 1..NPrm} \cup
  {Op("create", s, 0, 0, r, 0) : s \in SlotIds, r \in 1..NPrm} \cup
  {Op("analyze", s, 0, p, 0, 0) : s \in SlotIds, p \in Problems} \cup
  {Op("solve", s, 0, p, 0, w) : s \in SlotIds, p \in Problems, w \in {0, 1}} \cup
  {Op("solve", s, t, p, 0, 2) : s \in SlotIds, t \in SlotIds, p \in Problems} \cup
  {Op(a, s, t, 0, 0, 0) : a \in {"copy", "move", "copyassign", "moveassign"}, s \in SlotIds, t \in SlotIds} \cup
  {Op(a, s, 0, 0, 0, 0) : a \in {"selfassign", "destroy"}, s \in SlotIds}
=============================================================================
