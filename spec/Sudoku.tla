------------------------------- MODULE Sudoku -------------------------------
(* The rules.  A grid is a function from Cells to 0..N, 0 = empty.           *)
EXTENDS Geometry

EmptyCells(g) == {c \in Cells : g[c] = 0}
Clues(g)      == {c \in Cells : g[c] # 0}

\* all cells filled, every row, column and block holds each digit
Solved(g) == \A h \in Houses : {g[c] : c \in HouseSet[h]} = Digits

Extends(s, g) == \A c \in Cells : g[c] = 0 \/ s[c] = g[c]
IsSolution(s, g) == Extends(s, g) /\ Solved(s)

Conflict(g) == \E c \in Cells : g[c] # 0 /\ \E p \in Peers[c] : g[p] = g[c]

\* digits which no filled peer of c excludes
Options(g, c) == Digits \ {g[p] : p \in Peers[c]}
\* places of d in house h which no filled cell excludes
Places(g, h, d) == {c \in HouseSet[h] : g[c] = 0 /\ \A p \in Peers[c] : g[p] # d}
Present(g, h) == {g[c] : c \in HouseSet[h]} \ {0}

\* all solutions of g, declaratively enough for the small board
RECURSIVE Completions(_)
Completions(g) ==
    LET e == EmptyCells(g)
    IN  IF e = {} THEN (IF Solved(g) THEN {g} ELSE {})
        ELSE LET c == CHOOSE x \in e : \A y \in e : x <= y
             IN  UNION {Completions([g EXCEPT ![c] = d]) : d \in Options(g, c)}
EmptyGrid == [c \in Cells |-> 0]

\* g2 is g with the empty cells of house h filled by digits that g does not contain.
\* Renaming these digits maps solutions of g to solutions of g, and exactly one
\* renaming leads from a given solution to a solution of g2.
OrderedIn(g, g2, h) ==
    /\ \A c \in Cells : g[c] # 0 => g2[c] = g[c]
    /\ \A c \in Cells : g[c] = 0 => (g2[c] # 0 <=> c \in HouseSet[h])
    /\ {g2[c] : c \in HouseSet[h]} = Digits
    /\ \A c \in HouseSet[h] : g[c] = 0 => \A x \in Cells : g[x] # g2[c]
RECURSIVE Factorial(_)
Factorial(n) == IF n = 0 THEN 1 ELSE n * Factorial(n - 1)
Renamings(g, h) == Factorial(Cardinality({c \in HouseSet[h] : g[c] = 0}))
=============================================================================
