------------------------------ MODULE Geometry ------------------------------
(* Geometry of an N x N sudoku board with N = B*B.  B = 3 is the real board  *)
(* (trace validation), B = 2 the small one used for exhaustive exploration.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANT B
ASSUME B \in Nat /\ B > 1

N  == B * B
NC == N * N
Cells  == 1..NC
Digits == 1..N
Lines  == 0..(N-1)                     \* row, column and block numbers

RowOf == TLCEval([c \in Cells |-> (c-1) \div N])
ColOf == TLCEval([c \in Cells |-> (c-1) % N])
BlkOf == TLCEval([c \in Cells |-> (RowOf[c] \div B) * B + ColOf[c] \div B])
CellAt(r, k) == r * N + k + 1

\* position of a cell inside its block, left to right, top to bottom
BlkPos == TLCEval([c \in Cells |-> ((RowOf[c] % B) * B) + (ColOf[c] % B)])

\* houses: 0..N-1 rows, N..2N-1 columns, 2N..3N-1 blocks
Houses == 0..(3*N-1)
HouseSet == TLCEval([h \in Houses |->
    {c \in Cells : IF h < N THEN RowOf[c] = h
                   ELSE IF h < 2*N THEN ColOf[c] = h - N
                   ELSE BlkOf[c] = h - 2*N}])
\* p-th cell (0-based) of house h
HouseCell(h, p) == IF h < N THEN CellAt(h, p)
                   ELSE IF h < 2*N THEN CellAt(p, h - N)
                   ELSE CellAt(((h - 2*N) \div B) * B + p \div B, ((h - 2*N) % B) * B + (p % B))
PosIn(h, c) == IF h < N THEN ColOf[c] ELSE IF h < 2*N THEN RowOf[c] ELSE BlkPos[c]
HousesOf == TLCEval([c \in Cells |-> {RowOf[c], N + ColOf[c], 2*N + BlkOf[c]}])

Peers == TLCEval([c \in Cells |->
    {x \in Cells : x # c /\ (RowOf[x] = RowOf[c] \/ ColOf[x] = ColOf[c] \/ BlkOf[x] = BlkOf[c])}])

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
=============================================================================
