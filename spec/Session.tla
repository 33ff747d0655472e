------------------------------ MODULE Session -------------------------------
(* The strategy solver as an abstract object: its state is a position, the   *)
(* operations are insertions, rebuilding from the shown cell states, and     *)
(* views.  Views are functions of the position and never change it.          *)
EXTENDS Strategies, SequencesExt

\* insert_candidate: [ok |-> allowed results, p |-> next position]
CanInsert(p, c, d) == p.g[c] = 0
InsertOks(p, c, d) == IF p.g[c] = 0 THEN {TRUE} ELSE IF p.g[c] = d THEN BOOLEAN ELSE {FALSE}
AfterInsert(p, c, d) == IF p.g[c] = 0 THEN Enter(p, c, d) ELSE p

\* the view of a cell: <<digit or 0, candidates>>
CellView(p, c) == <<p.g[c], p.c[c]>>

\* all naked singles entered, again and again
RECURSIVE NakedClosure(_)
NakedClosure(p) ==
    LET ns == NakedSingles(p) IN
    IF ns = {} \/ \E c \in Cells : p.g[c] = 0 /\ p.c[c] = {} THEN p
    ELSE LET x == CHOOSE x \in ns : TRUE IN NakedClosure(TLCEval(Enter(p, x[1], x[2])))
ClosureFails(q) == Conflict(q.g) \/ \E c \in Cells : q.g[c] = 0 /\ q.c[c] = {}

------------------------------------------------------------------------------
(* The printed table, as a sequence of lines, each a sequence of characters. *)
DigitChar == <<"1", "2", "3", "4", "5", "6", "7", "8", "9">>
Ascending(D) == SelectSeq([i \in 1..N |-> i], LAMBDA d : d \in D)
CellText(p, c) == IF p.g[c] # 0 THEN <<DigitChar[p.g[c]]>>
                  ELSE IF p.c[c] = {} THEN <<"_">>
                  ELSE LET a == Ascending(p.c[c]) IN [i \in 1..Len(a) |-> DigitChar[a[i]]]
Rep(ch, n) == [i \in 1..n |-> ch]
Pad(s, w) == s \o Rep(" ", IF w > Len(s) THEN w - Len(s) ELSE 0)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
MaxIn(S) == CHOOSE x \in S : \A y \in S : y <= x
Widths(p) == [k \in Lines |-> MaxIn({Len(CellText(p, c)) : c \in HouseSet[N + k]})]
Table(p) ==
    LET w == TLCEval(Widths(p))
        bar(st) == Rep("─", w[B*st] + w[B*st + 1] + w[B*st + 2] + 6)
        sep(a, m, z) == <<a>> \o bar(0) \o <<m>> \o bar(1) \o <<m>> \o bar(2) \o <<z>>
        cell(r, k) == <<" ">> \o Pad(CellText(p, CellAt(r, k)), w[k]) \o <<" ">>
        row(r) == <<"│">> \o Concat([i \in 1..N |-> cell(r, i - 1) \o (IF i % B = 0 THEN <<"│">> ELSE <<>>)])
    IN  <<sep("┌", "┬", "┐"), row(0), row(1), row(2), sep("├", "┼", "┤"), row(3), row(4), row(5),
          sep("├", "┼", "┤"), row(6), row(7), row(8), sep("└", "┴", "┘")>>
=============================================================================
