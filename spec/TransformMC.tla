----------------------------- MODULE TransformMC -----------------------------
(* Shuffling and canonical forms, exhaustively on the small board.  A state  *)
(* is a solved grid; the steps are elementary moves (swap two lines of a     *)
(* chute, two chutes, two digits, transpose).                                *)
EXTENDS Transform


VARIABLES g, origin
vars == <<g, origin>>

AllDig == {p \in [1..N -> 1..N] : IsPerm(p, N)}
AllT == TLCEval({[tr |-> tr, rows |-> r, cols |-> k, dig |-> p] : tr \in BOOLEAN, r \in LineArrs, k \in LineArrs, p \in AllDig})
Order == Cardinality(AllT)

\* ------------------------------------------------ the random transformation, as drawn
\* a number below N! is decoded to a permutation of digits by a Fisher-Yates shuffle, one below B! to swaps of lines
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
SwapAt(f, i, j) == [f EXCEPT ![i] = f[j], ![j] = f[i]]
RECURSIVE Decode(_, _, _)
Decode(f, num, n) == IF n < 2 THEN f ELSE Decode(SwapAt(f, n, (num % n) + 1), num \div n, n - 1)
\* lines: swap(1, 1 + choice of B), swap(2, 2 + choice of B-1), ..
RECURSIVE DecodeLines(_, _, _)
DecodeLines(f, num, i) == LET left == Len(f) - i + 1
                          IN  IF left < 2 THEN f ELSE DecodeLines(SwapAt(f, i, i + (num % left)), num \div left, i + 1)
DrawnDigits == {Decode([d \in 1..N |-> d], n, N) : n \in 0..(Fact(N) - 1)}
DrawnLines  == {DecodeLines([d \in 1..B |-> d], n, 1) : n \in 0..(Fact(B) - 1)}
ASSUME DrawnDigits = AllDig
ASSUME DrawnLines = Perms3
ASSUME \A f \in [1..N -> 1..N] : IsLineArr(f) <=> f \in LineArrs
ASSUME Order = 2 * Fact(N) * Fact(B) * Fact(B) * Fact(B)^(2*B)

\* ------------------------------------------------ elementary moves
Id == [i \in 1..N |-> i]
T(tr, r, k, p) == [tr |-> tr, rows |-> r, cols |-> k, dig |-> p]
LineSwaps == {SwapAt(Id, B * b + i, B * b + j) : b \in 0..(B-1), i \in 1..B, j \in 1..B}
ChuteSwap(a, b) == [i \in 1..N |-> LET c == (i-1) \div B IN IF c = a THEN i + (b-a)*B ELSE IF c = b THEN i + (a-b)*B ELSE i]
ChuteSwaps == {ChuteSwap(a, b) : a, b \in 0..(B-1)}
Moves == TLCEval({T(TRUE, Id, Id, Id)} \cup {T(FALSE, s, Id, Id) : s \in LineSwaps \cup ChuteSwaps}
         \cup {T(FALSE, Id, s, Id) : s \in LineSwaps \cup ChuteSwaps} \cup {T(FALSE, Id, Id, SwapAt(Id, i, j)) : i, j \in 1..N})
ASSUME \A t \in Moves : IsTransform(t)

\* ------------------------------------------------ declarative canonical form
Lex(a, b) == \E i \in Cells : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
Class(x) == {Apply(t, x) : t \in AllT}
CanonOf(x) == CHOOSE y \in Class(x) : \A z \in Class(x) : z = y \/ Lex(y, z)
AutCount(x) == Cardinality({t \in AllT : Apply(t, x) = x})

\* starts at the minimal grid of each class; the moves reach all grids (postcondition)
FirstRow == [c \in Cells |-> IF c <= N THEN c ELSE 0]
Init == g \in {x \in Completions(FirstRow) : CanonOf(x) = x} /\ origin = g
Next == \E t \in Moves : g' = Apply(t, g) /\ origin' = origin
Spec == Init /\ [][Next]_vars

\* moves keep grids solved and in their class; the canonical form is the same for the whole class
Valid == Solved(g)
SameClass == \E t \in ToCanon(g) : Apply(t, g) = origin
\* the staged search finds exactly the transformations to the minimal member
Staged == LET ts == ToCanon(g) IN
             /\ ts = {t \in AllT : Apply(t, g) = origin}
             /\ Cardinality(ts) = AutCount(g)
\* orbit and stabiliser
OrbitStabiliser == Cardinality(Class(g)) * Cardinality(ToCanon(g)) = Order
\* the canonical form starts like this
Shape == \A i \in 1..N : origin[i] = i
\* equivalence search
Found == Reachable(g, origin) /\ \A h \in Completions(FirstRow) : (Reachable(g, h) <=> CanonOf(h) = origin)
AllGrids == TLCGet("stats").distinct = Cardinality(Completions(EmptyGrid))
=============================================================================
