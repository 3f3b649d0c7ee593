----------------------------- MODULE SparseMat ------------------------------
(* Abstract sparse matrix: values of all cells and the set of stored cells,   *)
(* with the block operations as functions.  Cells are <<row, col>>, 0-based.   *)
EXTENDS Integers, Sequences, FiniteSets

Cells(rows, cols) == (0..(rows - 1)) \X (0..(cols - 1))
Stored0(init) == {<<init[j][1], init[j][2]>> : j \in 1..Len(init)}
Val0(init, rows, cols) ==
  [x \in Cells(rows, cols) |-> IF x \in Stored0(init) THEN init[CHOOSE j \in 1..Len(init) : <<init[j][1], init[j][2]>> = x][3] ELSE 0]

\* cells of the source block that are addressed (ignoring the stored/not stored distinction)
InBlock(o, x) == /\ x[1] >= o.r0 /\ x[1] < o.r0 + o.h /\ x[2] >= o.c0 /\ x[2] < o.c0 + o.w
                 /\ (o.up = 0 \/ x[1] <= x[2])
SrcAt(o, x) == o.src[x[1] - o.r0 + 1][x[2] - o.c0 + 1]
MaskAt(o, x) == o.mask[x[1] - o.r0 + 1][x[2] - o.c0 + 1]

\* kinds 1, 2, 4, 5 are sparse sources: only masked entries are stored
SrcSparse(o) == o.kind \in {1, 2, 4, 5}
SrcStored(o, x) == ~SrcSparse(o) \/ MaskAt(o, x) = 1
SrcVal(o, x) == IF SrcStored(o, x) THEN SrcAt(o, x) ELSE 0

OnDiag(o, x) == x[1] - o.r0 = x[2] - o.c0 /\ x[1] >= o.r0 /\ x[1] < o.r0 + o.n

\* panel addressed by zeroBlock: middleRows for row major, middleCols for column major
InPanel(o, x, major) == IF major = 1 THEN x[1] >= o.r0 /\ x[1] < o.r0 + o.h ELSE x[2] >= o.c0 /\ x[2] < o.c0 + o.w

\* allowed new values of cell x
NewVals(o, x, old, major) ==
  CASE o.a = "add"    -> IF InBlock(o, x) THEN {old + o.scale * SrcVal(o, x)} ELSE {old}
    [] o.a = "write"  -> IF ~InBlock(o, x) THEN {old}
                         ELSE IF SrcStored(o, x) THEN {o.scale * SrcAt(o, x)}
                         ELSE {old, 0}   \* entry the sparse source does not store: see DESIGN.md
    [] o.a = "addI"   -> IF OnDiag(o, x) THEN {old + o.scale} ELSE {old}
    [] o.a = "writeI" -> IF OnDiag(o, x) THEN {o.scale} ELSE {old}
    [] o.a = "zero"   -> {0}
    [] o.a = "zeroBlock" -> IF InPanel(o, x, major) THEN {0} ELSE {old}
    [] o.a \in {"compress", "uncompress"} -> {old}

\* cells the operation may newly store
MayStore(o, cells) ==
  CASE o.a \in {"add", "write"} -> {x \in cells : InBlock(o, x)}
    [] o.a \in {"addI", "writeI"} -> {x \in cells : OnDiag(o, x)}
    [] OTHER -> {}
\* cells the operation really writes
Touched(o, cells) ==
  CASE o.a \in {"add", "write"} -> {x \in cells : InBlock(o, x) /\ SrcStored(o, x)}
    [] o.a \in {"addI", "writeI"} -> {x \in cells : OnDiag(o, x)}
    [] OTHER -> {}
=============================================================================
