------------------------------ MODULE Transform ------------------------------
(* The validity-preserving transformations of sudokus, equivalence, the      *)
(* canonical (minimal) member of a class and automorphisms.                  *)
EXTENDS Sudoku, SequencesExt

\* -------------------------------------------------------- transformations
Perms3 == {p \in [1..B -> 1..B] : \A i, j \in 1..B : i # j => p[i] # p[j]}
\* orders of lines (1..N) that keep the lines of a chute (band or stack) together
LineArrs == TLCEval({[i \in 1..N |-> B * (p[((i-1) \div B) + 1] - 1) + q[((i-1) \div B) + 1][((i-1) % B) + 1]] :
               p \in Perms3, q \in [1..B -> Perms3]})
IsPerm(f, n) == DOMAIN f = 1..n /\ {f[i] : i \in 1..n} = 1..n
IsLineArr(f) == IsPerm(f, N) /\ \A i \in 1..N : (f[i] - 1) \div B = (f[((i-1) \div B) * B + 1] - 1) \div B

\* t = [tr, rows, cols, dig]: transpose if tr, take the lines in the order rows, cols, relabel digits
IsTransform(t) == t.tr \in BOOLEAN /\ IsLineArr(t.rows) /\ IsLineArr(t.cols) /\ IsPerm(t.dig, N)
Src(t, c) == LET r == t.rows[RowOf[c] + 1] - 1
                 k == t.cols[ColOf[c] + 1] - 1
             IN  IF t.tr THEN CellAt(k, r) ELSE CellAt(r, k)
Label(dig, d) == IF d = 0 THEN 0 ELSE dig[d]
Apply(t, g) == [c \in Cells |-> Label(t.dig, g[Src(t, c)])]
Equivalent(a, b, ts) == \E t \in ts : Apply(t, a) = b

\* ------------------------------------------- search for a transformation
\* Is there any transformation of a into b? Columns first, then row by row, extending the relabelling.
\* dig: partial relabelling, 0 = open
RECURSIVE ExtendLabels(_, _, _, _, _, _)
ExtendLabels(dig, a, b, r, s, cols) ==      \* b's row r against row s of a; <<>> if impossible
    LET RECURSIVE Step(_, _)
        Step(k, m) ==
          IF k > N THEN m
          ELSE LET x == a[CellAt(s - 1, cols[k] - 1)]
                   y == b[CellAt(r - 1, k - 1)]
               IN  IF x = 0 /\ y = 0 THEN Step(k + 1, m)
                   ELSE IF x = 0 \/ y = 0 THEN <<>>
                   ELSE IF m[x] = y THEN Step(k + 1, m)
                   ELSE IF m[x] # 0 \/ \E z \in 1..N : m[z] = y THEN <<>>
                   ELSE Step(k + 1, [m EXCEPT ![x] = y])
    IN  Step(1, dig)
RECURSIVE RowSearch(_, _, _, _, _)
RowSearch(a, b, cols, used, dig) ==          \* used: rows of a taken so far, in order
    LET r == Len(used) + 1
    IN  IF r > N THEN TRUE
        ELSE \E s \in 1..N :
                /\ \A i \in 1..(r-1) : used[i] # s
                /\ IF (r - 1) % B = 0 THEN \A i \in 1..(r-1) : (used[i] - 1) \div B # (s - 1) \div B
                   ELSE (used[r-1] - 1) \div B = (s - 1) \div B
                /\ LET m == ExtendLabels(dig, a, b, r, s, cols) IN m # <<>> /\ RowSearch(a, b, cols, Append(used, s), m)
Transposed(g) == [c \in Cells |-> g[CellAt(ColOf[c], RowOf[c])]]
Reachable(a, b) == \E tr \in BOOLEAN, cols \in LineArrs :
                      RowSearch(IF tr THEN Transposed(a) ELSE a, b, cols, <<>>, [d \in 1..N |-> 0])

\* --------------------------------------------------------- canonical form
ColArr == TLCEval(SetToSeq(LineArrs))
NArr == Len(ColArr)
InvOf(f) == [i \in 1..N |-> CHOOSE k \in 1..N : f[k] = i]
ColInv == TLCEval([i \in 1..NArr |-> InvOf(ColArr[i])])
\* orders of the rows of one band, as they can stand in the first band
BandArrs == TLCEval({[i \in 1..B |-> B * b + p[i]] : b \in 0..(B-1), p \in Perms3})

MinNum(s) == CHOOSE x \in s : \A y \in s : x <= y
Keep(s, key(_)) == LET m == MinNum({key(x) : x \in s}) IN {x \in s : key(x) = m}

\* M[tr][r1][r2][c]: column of row r1 that holds the digit at row r2, column c, for g transposed if tr = 2
MTab(g) == TLCEval([tr \in 1..2 |-> LET h == IF tr = 2 THEN Transposed(g) ELSE g IN
             [r1 \in 1..N |-> LET pos == [d \in 1..N |-> CHOOSE k \in 1..N : h[CellAt(r1 - 1, k - 1)] = d] IN
               [r2 \in 1..N |-> [k \in 1..N |-> pos[h[CellAt(r2 - 1, k - 1)]]]]]])

\* A candidate x = <<tr, rows of the first band, number of a column order>>. The digits are relabelled such that
\* the first row of the result reads 1, 2, .., N. ValM gives the result's digit at column k of the row taken from r.
ValM(m, x, r, k) == ColInv[x[3]][m[x[1]][x[2][1]][r][ColArr[x[3]][k]]]
\* the smaller the earlier: rows of the other bands in the order of their first digits, the bands by their first rows
Rest(m, x) ==
    LET bands == {b \in 0..(B-1) : b # (x[2][1] - 1) \div B}
        rows(b) == SetToSortSeq({B * b + i : i \in 1..B}, LAMBDA p, q : ValM(m, x, p, 1) < ValM(m, x, q, 1))
        ordered == SetToSortSeq({rows(b) : b \in bands}, LAMBDA p, q : ValM(m, x, p[1], 1) < ValM(m, x, q[1], 1))
    IN  FlattenSeq(ordered)
\* compare row i, digit by digit from column k; s: pairs <<x, rows of x>>
RECURSIVE KeepRow(_, _, _, _)
KeepRow(m, s, i, k) == IF k > N THEN s ELSE KeepRow(m, TLCEval(Keep(s, LAMBDA y : ValM(m, y[1], y[2][i], k))), i, k + 1)
RECURSIVE KeepRows(_, _, _, _)
KeepRows(m, s, i, n) == IF i > n THEN s ELSE KeepRows(m, KeepRow(m, s, i, 1), i + 1, n)

\* The second row can begin with B+1, never with less, as its first B digits are not among the first B of the first row.
\* The column orders that do this: the first column is a, and the column where the first row holds the digit is x.
Starting == TLCEval([a \in 1..N |-> [x \in 1..N |-> {ci \in 1..NArr : ColArr[ci][1] = a /\ ColArr[ci][B + 1] = x}]])
Candidates(m) == UNION {{<<tr, ro, ci>> : ci \in Starting[a][m[tr][ro[1]][ro[2]][a]]} : tr \in 1..2, ro \in BandArrs, a \in 1..N}
\* the candidates leading to the minimal grid, with their order of rows
Minimal(m) ==
    LET a == TLCEval({<<x, x[2]>> : x \in Candidates(m)})
        b == TLCEval(KeepRows(m, a, 2, B))
        c == TLCEval({<<y[1], y[2] \o Rest(m, y[1])>> : y \in b})
    IN  TLCEval(KeepRows(m, c, B + 1, N))
\* as transformations
AsTransform(g, y) ==
    LET x == y[1]
        cols == ColArr[x[3]]
        h == IF x[1] = 2 THEN Transposed(g) ELSE g
    IN  [tr |-> x[1] = 2, rows |-> y[2], cols |-> cols,
         dig |-> [d \in 1..N |-> CHOOSE k \in 1..N : h[CellAt(x[2][1] - 1, cols[k] - 1)] = d]]
\* for a solved grid: all transformations that lead to the canonical form
ToCanon(g) == LET m == MTab(g) IN TLCEval({AsTransform(g, y) : y \in Minimal(m)})
=============================================================================
