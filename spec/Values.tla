------------------------------- MODULE Values -------------------------------
(* Values and what stands for them (P27).  A value is known by its content,  *)
(* a sequence.  Equality of values is equality of contents, the order of the *)
(* types with a meaningful one is the lexicographic order of contents, other *)
(* orders are any total orders that agree with equality; hashes of equal     *)
(* values are equal; a copy has the content of its origin and neither of the *)
(* two is changed by what is done to the other.                              *)
EXTENDS Integers, Sequences, FiniteSets

If(cond, what) == IF cond THEN {} ELSE {what}

RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) ==
    IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
    ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE LexFrom(a, b, i + 1)
Lex(a, b) == LexFrom(a, b, 1)

\* relation operators < (1), <= (2), > (4), >= (8) that hold, by the outcome of a comparison
Rel(c) == CASE c = -1 -> 3 [] c = 0 -> 10 [] c = 1 -> 12 [] OTHER -> -1

\* c: contents, m: matrix of comparisons
TotalOrder(c, m) ==
    LET I == 1..Len(c)
    IN  /\ \A i, j \in I : m[i][j] \in {-1, 0, 1} /\ m[i][j] = -m[j][i] /\ ((m[i][j] = 0) <=> c[i] = c[j])
        /\ \A i, j, k \in I : m[i][j] = -1 /\ m[j][k] = -1 => m[i][k] = -1
LexOrder(c, m) == \A i, j \in 1..Len(c) : m[i][j] = Lex(c[i], c[j])
EqOk(c, eq) == \A i, j \in 1..Len(c) : eq[i][j] <=> c[i] = c[j]
HashOk(c, h) == \A i, j \in 1..Len(c) : c[i] = c[j] => h[i] = h[j]

\* ascending, without (d = -1) or with repetition (d = 0)
Ascending(s, d) == \A i \in 1..(Len(s)-1) : Lex(s[i], s[i+1]) <= d
Occ(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Sorted(c, s) == Len(c) = Len(s) /\ Ascending(s, 0) /\ \A i \in 1..Len(c) : Occ(c, c[i]) = Occ(s, c[i])
Distinct(c) == {c[i] : i \in 1..Len(c)}
Tree(c, s) == Ascending(s, -1) /\ Distinct(s) = Distinct(c)
=============================================================================
