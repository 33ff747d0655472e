---------------------------- MODULE SolveSearch -----------------------------
(* The solver as a state machine: a stack of partial grids, each step takes  *)
(* the topmost one and either records it (if complete), or replaces it by    *)
(* one successor for each option of some branching point: the digits of an   *)
(* empty cell or the places of a digit in a house.  Which branching point is *)
(* used is left open (the implementation propagates singles first and then   *)
(* guesses on bivalue cells, other cells or digit/band places).              *)
(* The search ends when `limit` solutions are known or nothing is left.      *)
(* The first `cap` solutions are written to the caller's buffer.             *)
EXTENDS Sudoku, SequencesExt

CONSTANTS Roots,      \* set of puzzles to start from
          Limits, Caps

VARIABLES puzzle, limit, cap, stack, found, buf
vars == <<puzzle, limit, cap, stack, found, buf>>

Untouched == "untouched"

Init == /\ puzzle \in Roots
        /\ limit \in Limits
        /\ cap \in Caps
        /\ stack = IF Conflict(puzzle) THEN <<>> ELSE <<puzzle>>
        /\ found = <<>>
        /\ buf = [i \in 1..cap |-> Untouched]

Done == stack = <<>> \/ Len(found) = limit

Top  == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)

Record == /\ ~Done /\ EmptyCells(Top) = {}
          /\ found' = Append(found, Top)
          /\ buf' = IF Len(found) < cap THEN [buf EXCEPT ![Len(found) + 1] = Top] ELSE buf
          /\ stack' = Rest
          /\ UNCHANGED <<puzzle, limit, cap>>

BranchCell(c) ==
          /\ ~Done /\ Top[c] = 0
          /\ stack' = Rest \o SetToSeq({[Top EXCEPT ![c] = d] : d \in Options(Top, c)})
          /\ UNCHANGED <<puzzle, limit, cap, found, buf>>

BranchHouse(h, d) ==
          /\ ~Done /\ EmptyCells(Top) # {} /\ d \notin Present(Top, h)
          /\ stack' = Rest \o SetToSeq({[Top EXCEPT ![c] = d] : c \in Places(Top, h, d)})
          /\ UNCHANGED <<puzzle, limit, cap, found, buf>>

Next == \/ Record
        \/ \E c \in Cells : BranchCell(c)
        \/ \E h \in Houses, d \in Digits : BranchHouse(h, d)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
All == Completions(EmptyGrid)                 \* 288 grids for B = 2
Sols(g) == {s \in All : Extends(s, g)}

FoundSet == {found[i] : i \in 1..Len(found)}

\* nothing is lost, nothing is invented, nothing is found twice
Partition ==
    /\ FoundSet \cup UNION {Sols(stack[i]) : i \in 1..Len(stack)} = Sols(puzzle)
    /\ Cardinality(FoundSet) = Len(found)
    /\ \A i, j \in 1..Len(stack) : i # j => Sols(stack[i]) \cap Sols(stack[j]) = {}
    /\ \A i \in 1..Len(stack) : Sols(stack[i]) \cap FoundSet = {}
NoConflict == \A i \in 1..Len(stack) : ~Conflict(stack[i])
\* P01/P02: the result is exact
Exact == Done => /\ Len(found) = Min2(limit, Cardinality(Sols(puzzle)))
                 /\ FoundSet \subseteq Sols(puzzle)
\* P03: exactly the leading slots are written
Buffer == \A i \in 1..cap : buf[i] = IF i <= Len(found) THEN found[i] ELSE Untouched
\* progress: a decreasing measure (number of filled cells grows along every branch)
Terminates == <>Done

-----------------------------------------------------------------------------
\* instance for B = 2: puzzles obtained from solved grids by emptying cells, and contradictory ones
G1 == <<1,2,3,4, 3,4,1,2, 2,1,4,3, 4,3,2,1>>
G2 == <<1,2,3,4, 3,4,1,2, 2,3,4,1, 4,1,2,3>>
Without(g, E) == [c \in Cells |-> IF c \in E THEN 0 ELSE g[c]]
MCRoots ==
    {Without(G1, E) : E \in {{}, {1}, {1,2}, {1,2,5}, {1,2,9,10}, {1,3,6,8}, {3,4,7,8}, {1,2,9,10,16}, {1,2,3,4}}}
    \cup {Without(G2, E) : E \in {{1,6,11}, {1,3,9,11}, {5,7,13,15}, {2,4,10,12}}}
    \cup {[Without(G1, {1,2,5}) EXCEPT ![3] = 4], [Without(G1, {1,6,8}) EXCEPT ![2] = 0, ![7] = 3],
          [Without(G2, {4,8,12,16}) EXCEPT ![4] = 1], [G1 EXCEPT ![16] = 2], [Without(G1, {1,2,9}) EXCEPT ![5] = 4]}
MCRootsBig == MCRoots \cup {Without(G1, {1,2,5,6,9,10}), Without(G2, {1,3,6,9,11,16}), Without(G1, {2,3,5,8,12,14})}
\* puzzles whose unused digits are interchangeable (see OrderedIn)
Interchangeable == {EmptyGrid} \cup {[c \in Cells |-> IF g[c] \in D THEN g[c] ELSE 0] : g \in {G1, G2}, D \in SUBSET Digits}
                   \cup {[EmptyGrid EXCEPT ![1] = 1, ![11] = 1], [EmptyGrid EXCEPT ![5] = 3], [G1 EXCEPT ![1] = 0, ![7] = 0]}
Orders(g, h) == LET E == {c \in HouseSet[h] : g[c] = 0}
                IN  {g2 \in {[c \in Cells |-> IF c \in E THEN f[c] ELSE g[c]] : f \in [E -> Digits]} : OrderedIn(g, g2, h)}
ASSUME \A g \in Interchangeable, h \in Houses : \A g2 \in Orders(g, h) :
          Cardinality(Sols(g)) = Renamings(g, h) * Cardinality(Sols(g2))
ASSUME \A h \in Houses : Cardinality(Orders(EmptyGrid, h)) = 24
MCLimits == {0, 1, 2, 3, 100}
MCCaps == {0, 1, 2}
=============================================================================
