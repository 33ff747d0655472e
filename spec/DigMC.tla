------------------------------- MODULE DigMC --------------------------------
(* Generation of a puzzle: the groups of symmetric cells are visited in any  *)
(* order, each is emptied if the solution stays unique.                      *)
EXTENDS Sudoku, Symmetry

CONSTANTS Sources, Syms
VARIABLES src, sym, puzzle, left
vars == <<src, sym, puzzle, left>>

All == TLCEval(Completions(EmptyGrid))
Sols(g) == {s \in All : Extends(s, g)}
Unique(g) == Cardinality(Sols(g)) = 1

Init == /\ src \in Sources /\ sym \in Syms
        /\ puzzle = src
        /\ left = IF Unique(src) THEN Orbits(sym) ELSE {}
Dig(o) == [c \in Cells |-> IF c \in o THEN 0 ELSE puzzle[c]]
Visit(o) == /\ o \in left
            /\ left' = left \ {o}
            /\ puzzle' = IF Unique(Dig(o)) THEN Dig(o) ELSE puzzle
            /\ UNCHANGED <<src, sym>>
Next == \E o \in left : Visit(o)
Spec == Init /\ [][Next]_vars

Done == left = {}
Sound == Extends(src, puzzle) /\ Sols(puzzle) = Sols(src)
Untouched == ~Unique(src) => puzzle = src
Symmetric(g) == \A o \in Orbits(sym) : (\E c \in o : g[c] = 0) => \A c \in o : g[c] = 0
Minimal == Done /\ Unique(src) => \A o \in Orbits(sym) : (\E c \in o : puzzle[c] # 0) => ~Unique(Dig(o))
SymmetricResult == (EmptyCells(src) = {} => Symmetric(puzzle)) /\ (Symmetric(src) => Symmetric(puzzle))

\* one solved grid of each kind, some puzzles, contradictory and ambiguous sources
S1 == <<1,2,3,4, 3,4,1,2, 2,1,4,3, 4,3,2,1>>
S2 == <<1,2,3,4, 3,4,1,2, 2,3,4,1, 4,1,2,3>>
Part(s, keep) == [c \in Cells |-> IF c \in keep THEN s[c] ELSE 0]
SomeSources == {S1, S2, Part(S1, {1,2,3,5,6,8,9,12,14,15}), Part(S2, {1,3,6,8,9,10,11,16}), Part(S1, {1,2,5}), EmptyGrid,
                [c \in Cells |-> IF c \in {1, 2} THEN 1 ELSE 0],
                [c \in Cells |-> CASE c = 1 -> 1 [] c = 2 -> 2 [] c = 3 -> 3 [] c = 8 -> 4 [] OTHER -> 0]}
FewSources == {S2, Part(S1, {1,2,3,5,6,8,9,12,14,15}), Part(S1, {1,2,5}), EmptyGrid, [c \in Cells |-> IF c \in {1, 2} THEN 1 ELSE 0]}
WithSymmetry == Symmetries \ {"None"}
=============================================================================
