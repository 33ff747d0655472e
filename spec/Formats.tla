------------------------------- MODULE Formats -------------------------------
(* Text formats of sudokus, declaratively: what a string (a sequence of      *)
(* code points) means to each parser, and the text of a grid.                *)
(* BW = cells per segment, BM = segments per row (and bands per board); the  *)
(* real board has BW = BM = 3.                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS BW, BM
W == BW * BM          \* cells per row, rows per board

\* characters
TAB == 9  LF == 10  CR == 13  SPACE == 32  PLUS == 43  COMMA == 44  MINUS == 45
DOT == 46  SEMI == 59  UNDER == 95  BAR == 124
DigitChars == 48..57
CellChar(x) == x \in DigitChars \/ x = DOT \/ x = UNDER
CellVal(x)  == IF x \in DigitChars THEN x - 48 ELSE 0
LineDelims  == {SPACE, TAB, LF, CR, COMMA, SEMI}
WhiteSpace  == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Ok(g)     == [r |-> "ok", g |-> g]
Err(e, n, ch) == [r |-> "err", e |-> e, n |-> n, ch |-> ch]

-----------------------------------------------------------------------------
(* Line format: a set of acceptable outcomes.  Where the documentation does  *)
(* not decide (a newline, comma or semicolon before the grid is complete is  *)
(* both an invalid entry and an early end) both errors are accepted.         *)
LineOutcomes(s) ==
    LET n   == W * W
        bad == {i \in 1..n : i > Len(s) \/ ~CellChar(s[i])}
    IN  IF bad # {}
        THEN LET i == Min(bad)
                 short == Err("NotEnoughCells", i - 1, 0)
                 inval == Err("InvalidEntry", i - 1, s[i])
             IN  IF i > Len(s) \/ s[i] \in {SPACE, TAB} THEN {short}
                 ELSE IF s[i] \in LineDelims THEN {short, inval}
                 ELSE {inval}
        ELSE IF Len(s) = n \/ s[n+1] \in LineDelims THEN {Ok([i \in 1..n |-> CellVal(s[i])])}
        ELSE IF CellChar(s[n+1]) THEN {Err("TooManyCells", 0, 0)}
        ELSE {Err("MissingCommentDelimiter", 0, 0)}

-----------------------------------------------------------------------------
\* lines of a text: separated by LF or CR LF; a final line terminator opens no further line
RECURSIVE SplitFrom(_, _)
SplitFrom(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE LET ends == {j \in i..Len(s) : s[j] = LF}
             e == IF ends = {} THEN Len(s) + 1 ELSE Min(ends)
             last == IF ends # {} /\ e > i /\ s[e-1] = CR THEN e - 2 ELSE e - 1
         IN  <<SubSeq(s, i, last)>> \o SplitFrom(s, e + 1)
TextLines(s) == SplitFrom(s, 1)

-----------------------------------------------------------------------------
(* Strict block format. *)
DelimCols == {k * (BW + 1) - 1 : k \in 1..(BM - 1)}           \* 0-based character columns of '|'
CellCol(delimited, p) == IF delimited THEN p + p \div BW ELSE p  \* column of the p-th cell of a row
RowChars(delimited) == IF delimited THEN W + BM - 1 ELSE W

OK == [r |-> "good line"]
\* meaning of a line that has to be row r
RowError(ln, r, delimited) ==
    LET n == RowChars(delimited)
        isDelim(k) == delimited /\ (k - 1) \in DelimCols
        wrong(k) == k > Len(ln) \/ (IF isDelim(k) THEN ln[k] # BAR ELSE ~CellChar(ln[k]))
        ks == {k \in 1..n : wrong(k)}
    IN  IF ks # {}
        THEN LET k == Min(ks)
             IN  IF k > Len(ln) THEN Err("InvalidLineLength", r, 0)
                 ELSE IF isDelim(k) THEN Err("IncorrectFieldDelimiter", 0, 0)
                 ELSE Err("InvalidEntry", r * W + Cardinality({j \in 1..(k-1) : ~isDelim(j)}), ln[k])
        ELSE IF Len(ln) = n \/ ln[n+1] \in {SPACE, TAB} THEN OK
        ELSE IF CellChar(ln[n+1]) THEN Err("InvalidLineLength", r, 0)
        ELSE Err("MissingCommentDelimiter", r, 0)

SepText(plus) == [k \in 1..(W + BM - 1) |-> IF plus /\ (k - 1) \in DelimCols THEN PLUS ELSE MINUS]
IsSep(ln, plus) == LET n == W + BM - 1 IN Len(ln) >= n /\ SubSeq(ln, 1, n) = SepText(plus)
\* is whatever follows the separator properly delimited?  If not the documentation forbids it, the
\* implementation has always accepted it: both are accepted here
SepClean(ln) == LET n == W + BM - 1 IN Len(ln) = n \/ ln[n+1] \in {SPACE, TAB}

Blank(ln) == \A k \in 1..Len(ln) : ln[k] \in WhiteSpace

BlockOutcomes(s) ==
    LET L == TextLines(s)
        delimited == Len(L) > 0 /\ Len(L[1]) > BW /\ L[1][BW+1] = BAR
        nItems == IF delimited THEN W + BM - 1 ELSE W
        isSepLine(i) == delimited /\ i % (BW + 1) = 0             \* 1-based line number
        rowOf(i) == IF delimited THEN (i - 1) - (i - 1) \div (BW + 1) ELSE i - 1
        plus == delimited /\ Len(L) >= BW + 1 /\ IsSep(L[BW+1], TRUE)
        error(i) == IF isSepLine(i) THEN (IF IsSep(L[i], plus) THEN OK ELSE Err("IncorrectFieldDelimiter", 0, 0))
                    ELSE RowError(L[i], rowOf(i), delimited)
        bad == {i \in 1..Min({nItems, Len(L)}) : error(i) # OK}
        unclean == {i \in 1..Min({nItems, Len(L)}) : isSepLine(i) /\ error(i) = OK /\ ~SepClean(L[i])}
        outcome ==
            IF bad # {} THEN error(Min(bad))
            ELSE IF Len(L) < nItems
                 THEN Err("NotEnoughRows", Cardinality({i \in 1..Len(L) : ~isSepLine(i)}), 0)
            ELSE IF Len(L) > nItems /\ ~Blank(L[nItems + 1]) THEN Err("TooManyRows", 0, 0)
            ELSE Ok([c \in 1..(W*W) |->
                        LET r == (c - 1) \div W
                            p == (c - 1) % W
                            i == IF delimited THEN r + 1 + r \div BW ELSE r + 1
                        IN  CellVal(L[i][CellCol(delimited, p) + 1])])
    IN  {outcome} \cup (IF unclean # {} /\ (bad = {} \/ Min(unclean) < Min(bad))
                        THEN {Err("IncorrectFieldDelimiter", 0, 0)} ELSE {})

-----------------------------------------------------------------------------
(* Permissive block format. *)
CellsOf(ln) == SelectSeq(ln, CellChar)
PermissiveOutcomes(s) ==
    LET rows == SelectSeq(TextLines(s), LAMBDA ln : Len(CellsOf(ln)) >= W)
    IN  IF Len(rows) >= W
        THEN {Ok([c \in 1..(W*W) |-> CellVal(CellsOf(rows[(c-1) \div W + 1])[((c-1) % W) + 1])])}
        ELSE {Err("NotEnoughRows", Len(rows), 0)}

-----------------------------------------------------------------------------
(* Texts of a grid. *)
LineText(g) == [c \in 1..(W*W) |-> IF g[c] = 0 THEN DOT ELSE 48 + g[c]]
RECURSIVE BlockFrom(_, _)
BlockFrom(g, c) ==
    IF c > W*W THEN <<>>
    ELSE LET r == (c-1) \div W
             k == (c-1) % W
             sep == IF k = 0 THEN (IF r > 0 /\ r % BW = 0 THEN <<LF, LF>> ELSE <<LF>>)
                    ELSE IF k % BW = 0 THEN <<SPACE>> ELSE <<>>
         IN  sep \o <<IF g[c] = 0 THEN UNDER ELSE 48 + g[c]>> \o BlockFrom(g, c + 1)
BlockText(g) == BlockFrom(g, 1)
JsonText(g) == <<34>> \o LineText(g) \o <<34>>

\* byte arrays
BytesValid(b) == Len(b) = W*W /\ \A i \in 1..Len(b) : b[i] <= W

\* lexicographic comparison of sequences: -1, 0, 1
Compare(a, b) ==
    LET d == {i \in 1..Min({Len(a), Len(b)}) : a[i] # b[i]}
    IN  IF d # {} THEN (IF a[Min(d)] < b[Min(d)] THEN -1 ELSE 1)
        ELSE IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0
=============================================================================
