----------------------------- MODULE Positions ------------------------------
(* All kinds of positions on the board as sets of cells, by kind and number. *)
(* Lines number the rows, then the columns; houses rows, columns, blocks;    *)
(* chutes bands, then stacks; mini-rows are numbered along the rows, mini-   *)
(* columns along the columns, mini-lines mini-rows first.                    *)
EXTENDS Geometry

BandOf(c)  == RowOf[c] \div B
StackOf(c) == ColOf[c] \div B

Limit == [Cell |-> NC, Row |-> N, Col |-> N, Block |-> N, Line |-> 2*N, House |-> 3*N,
          MiniRow |-> N*B, MiniCol |-> N*B, MiniLine |-> 2*N*B, Band |-> B, Stack |-> B, Chute |-> 2*B]
Kinds == DOMAIN Limit

\* what a general number means: the kind and number of the special position
Part(a, b, n) == IF n < Limit[a] THEN <<a, n>> ELSE <<b, n - Limit[a]>>
Categorize(kind, n) ==
    CASE kind = "Line"     -> Part("Row", "Col", n)
      [] kind = "House"    -> IF n < 2*N THEN Part("Row", "Col", n) ELSE <<"Block", n - 2*N>>
      [] kind = "Chute"    -> Part("Band", "Stack", n)
      [] kind = "MiniLine" -> Part("MiniRow", "MiniCol", n)
      [] OTHER -> <<kind, n>>

CellsOf0(kind, n) ==
    CASE kind = "Cell"    -> {n + 1}
      [] kind = "Row"     -> {c \in Cells : RowOf[c] = n}
      [] kind = "Col"     -> {c \in Cells : ColOf[c] = n}
      [] kind = "Block"   -> {c \in Cells : BlkOf[c] = n}
      [] kind = "Band"    -> {c \in Cells : BandOf(c) = n}
      [] kind = "Stack"   -> {c \in Cells : StackOf(c) = n}
      [] kind = "MiniRow" -> {c \in Cells : RowOf[c] = n \div B /\ StackOf(c) = n % B}
      [] kind = "MiniCol" -> {c \in Cells : ColOf[c] = n \div B /\ BandOf(c) = n % B}
CellsOf(kind, n) == LET s == Categorize(kind, n) IN CellsOf0(s[1], s[2])

\* the n-th position of kind `to` for the value n of kind `from`
IsIn(to, m, c) == c \in CellsOf(to, m)
Convert(from, to, n) ==
    IF from = "Cell" THEN CHOOSE m \in 0..(Limit[to]-1) : IsIn(to, m, n + 1)
    ELSE CHOOSE m \in 0..(Limit[to]-1) : CellsOf(to, m) = CellsOf(from, n) /\ Categorize(to, m) = Categorize(from, n)

\* the p-th cell of a row, column or block in reading order
Reading(kind, n, p) == CHOOSE c \in CellsOf(kind, n) : Cardinality({x \in CellsOf(kind, n) : x < c}) = p
\* position of a cell within its position of that kind
PosWithin(kind, c) == LET n == CHOOSE m \in 0..(Limit[kind]-1) : IsIn(kind, m, c)
                      IN  Cardinality({x \in CellsOf(kind, n) : x < c})
=============================================================================
