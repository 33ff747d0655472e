------------------------------ MODULE Symmetry ------------------------------
(* Symmetries of the positions of clues: groups of maps of the board.        *)
EXTENDS Geometry

mir(x) == N - 1 - x
\* maps of the board, as functions on cells
Map(f(_,_), k(_,_)) == [c \in Cells |-> CellAt(f(RowOf[c], ColOf[c]), k(RowOf[c], ColOf[c]))]
R1(r, c) == r
C1(r, c) == c
MR(r, c) == mir(r)
MC(r, c) == mir(c)
IdMap == Map(R1, C1)
VMir == Map(R1, MC)           \* along the vertical axis: left and right are exchanged
HMir == Map(MR, C1)
Diag == Map(C1, R1)
Anti == Map(MC, MR)
Quarter == Map(C1, MR)        \* 90 degrees clockwise
Half == Map(MR, MC)

Generators(sym) ==
    CASE sym = "VerticalMirror" -> {VMir}
      [] sym = "HorizontalMirror" -> {HMir}
      [] sym = "VerticalAndHorizontalMirror" -> {VMir, HMir}
      [] sym = "DiagonalMirror" -> {Diag}
      [] sym = "AntidiagonalMirror" -> {Anti}
      [] sym = "BidiagonalMirror" -> {Diag, Anti}
      [] sym = "QuarterRotation" -> {Quarter}
      [] sym = "HalfRotation" -> {Half}
      [] sym = "Dihedral" -> {VMir, HMir, Diag, Anti, Quarter}
      [] sym = "None" -> {IdMap}
Symmetries == {"VerticalMirror", "HorizontalMirror", "VerticalAndHorizontalMirror", "DiagonalMirror", "AntidiagonalMirror",
               "BidiagonalMirror", "QuarterRotation", "HalfRotation", "Dihedral", "None"}

RECURSIVE Closure(_, _)
Closure(s, gens) == LET t == s \cup {m[c] : m \in gens, c \in s} IN IF t = s THEN s ELSE Closure(t, gens)

\* cells that have to be filled or empty together
OrbitOf == TLCEval([sym \in Symmetries |-> [c \in Cells |-> Closure({c}, Generators(sym))]])
Orbits(sym) == {OrbitOf[sym][c] : c \in Cells}
=============================================================================
