---------------------------- MODULE PositionsMC -----------------------------
(* Consistency of the geometry: every kind partitions the board, mini-lines  *)
(* are intersections, the general kinds are disjoint unions of the special   *)
(* ones.  One state per kind and number.                                     *)
EXTENDS Positions
VARIABLES kind, n
vars == <<kind, n>>
Init == kind \in Kinds /\ n = 0
Next == n + 1 < Limit[kind] /\ n' = n + 1 /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

Size == [Cell |-> 1, Row |-> N, Col |-> N, Block |-> N, Line |-> N, House |-> N, MiniRow |-> B, MiniCol |-> B, MiniLine |-> B,
         Band |-> N*B, Stack |-> N*B, Chute |-> N*B]
Me == CellsOf(kind, n)
SizeRight == Cardinality(Me) = Size[kind]
Special == {"Cell", "Row", "Col", "Block", "MiniRow", "MiniCol", "Band", "Stack"}
Partition == kind \in Special =>
    /\ \A m \in 0..(Limit[kind]-1) : m # n => CellsOf(kind, m) \cap Me = {}
    /\ UNION {CellsOf(kind, m) : m \in 0..(Limit[kind]-1)} = Cells
\* general kinds have pairwise different members
Distinct == \A m \in 0..(Limit[kind]-1) : m # n => CellsOf(kind, m) # Me
\* a mini-line is the intersection of a line and a block, and every such intersection is one
Intersections == kind = "MiniLine" =>
    \E x \in 0..(2*N-1), b \in 0..(N-1) : CellsOf("Line", x) \cap CellsOf("Block", b) = Me
\* houses agree with Geometry
Agree == kind = "House" => HouseSet[n] = Me /\ \A p \in 0..(N-1) : HouseCell(n, p) \in Me /\ PosIn(n, HouseCell(n, p)) = p
                                               /\ HouseCell(n, p) = Reading("House", n, p)
PeersRight == kind = "Cell" => Peers[n+1] = (UNION {HouseSet[h] : h \in HousesOf[n+1]}) \ {n+1}
=============================================================================
