------------------------------ MODULE FormatGen ------------------------------
(* A writer of texts: behaviours of this machine, generated by TLC's         *)
(* simulator, are texts that follow the formats of Formats.tla up to a few   *)
(* slips.  The implementation reads them; FormatTrace judges what it makes   *)
(* of them.                                                                  *)
EXTENDS Formats, SequencesExt, Randomization, Json

VARIABLES text,   \* written so far
          row,    \* rows written so far
          style,  \* chosen at the beginning
          slips,  \* number of slips the writer may still make
          phase   \* "start", "lines", "tail", "done"
vars == <<text, row, style, slips, phase>>

R(S) == RandomElement(IF row < 0 THEN {0} ELSE S)   \* state-level: not evaluated once and for all
Pick(s) == s[R(1..Len(s))]          \* a sequence, so that weights are possible
\* the arguments keep TLC from evaluating random choices once and for all
Cell(t) == Pick(<<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, DOT, UNDER>>)
Cells(n) == TLCEval([k \in 1..n |-> R({48, 49, 50, 51, 52, 53, 54, 55, 56, 57, DOT, UNDER})])
\* characters that mean something to one of the parsers or look like it
Odd == <<TAB, LF, CR, SPACE, PLUS, COMMA, MINUS, SEMI, BAR, BAR, 11, 12, 0, 34, 47, 58, 64, 88, 120, 127, 133, 160, 178, 1632, 1633, 8195, 8232, 8233, 9474, 65297, 65372, 120783, 128512>>
OddChar(t) == Pick(Odd)
Junk(t) == [k \in 1..R(0..12) |-> IF R(1..3) = 1 THEN OddChar(t) ELSE Cell(t)]
JunkLine(t) == SelectSeq(Junk(t), LAMBDA x : x # LF)

NL == CASE style.nl = "lf" -> <<LF>> [] style.nl = "crlf" -> <<CR, LF>> [] OTHER -> Pick(<<<<LF>>, <<LF>>, <<CR, LF>>, <<CR>>>>)
RowOf(delim, cs) == IF ~delim THEN cs
                    ELSE SubSeq(cs, 1, 3) \o <<BAR>> \o SubSeq(cs, 4, 6) \o <<BAR>> \o SubSeq(cs, 7, 9)
Comment == IF style.comments /\ R(1..3) = 1 THEN <<Pick(<<SPACE, TAB>>)>> \o JunkLine(text) ELSE <<>>
GoodRow == RowOf(style.delim, Cells(W)) \o Comment

\* one slip in a line
Slip(ln) ==
    LET k == IF ln = <<>> THEN 0 ELSE R(1..Len(ln))
        kind == R(1..8)
        ch == R({0, 1})
        x == IF ch = 0 THEN OddChar(text) ELSE Cell(text)
    IN  CASE k = 0 -> <<x>>
          [] kind \in 1..2 -> [ln EXCEPT ![k] = x]
          [] kind = 3 -> SubSeq(ln, 1, k - 1) \o SubSeq(ln, k + 1, Len(ln))
          [] kind = 4 -> SubSeq(ln, 1, k) \o <<x>> \o SubSeq(ln, k + 1, Len(ln))
          [] kind = 5 -> SubSeq(ln, 1, k)
          [] kind = 6 -> ln \o <<x>>
          [] kind = 7 -> ln \o ln
          [] OTHER -> RowOf(~style.delim, Cells(W))
\* a slip may break the line: it is written as it is
Write(ln) == LET s == TLCEval(slips > 0 /\ R(1..6) = 1)
                 l == TLCEval(IF s THEN Slip(ln) ELSE ln)
             IN  /\ text' = TLCEval(text \o l \o NL)
                 /\ slips' = (IF s THEN slips - 1 ELSE slips)
Same == UNCHANGED style

Start ==
    /\ phase = "start"
    /\ \E k \in {R({"block", "block", "line"})} :
       LET line == TLCEval(R(1..4) = 1) IN
       /\ style' = TLCEval([line |-> line, delim |-> R(BOOLEAN), plus |-> R(BOOLEAN), nl |-> Pick(<<"lf", "lf", "crlf", "mixed">>), comments |-> R(BOOLEAN),
                    loose |-> R(1..3) = 1])
       /\ slips' = Pick(<<0, 0, 1, 1, 1, 2, 3, 6>>)
       /\ phase' = "lines" /\ row' = 0 /\ text' = <<>>

\* line format: all cells at once
OneLine ==
    /\ phase = "lines" /\ style.line
    /\ LET n == TLCEval(Pick(<<81, 81, 81, 81, 80, 82, 0, 1, 79, R(2..100)>>))
           body == TLCEval(Cells(n))
           tail == TLCEval(Pick(<< <<>>, <<>>, <<Pick(<<SPACE, TAB, LF, CR, COMMA, SEMI>>)>> \o Junk(text), <<OddChar(text)>> \o Junk(text), <<CR, LF>> >>))
           s == TLCEval(slips > 0)
       IN  /\ text' = TLCEval((IF s THEN Slip(body) ELSE body) \o tail)
           /\ slips' = (IF s THEN slips - 1 ELSE slips)
    /\ row' = W /\ phase' = "done" /\ Same

LineBreakDue == style.delim /\ row \in {3, 6} /\ style.line = FALSE
Sep == LET p == TLCEval(IF slips > 0 /\ R(1..5) = 1 THEN ~style.plus ELSE style.plus) IN SepText(p)
WriteRow ==
    /\ phase = "lines" /\ ~style.line /\ row < W
    /\ LET extra == TLCEval(style.loose /\ R(1..4) = 1) IN
       IF extra
       \* lines that only the permissive parser tolerates
       THEN Write(Pick(<< <<>>, <<SPACE>>, JunkLine(text), Cells(R(0..8)), SepText(TRUE), Cells(W) \o JunkLine(text), <<SPACE>> \o Cells(W) >>)) /\ row' = row /\ phase' = phase
       ELSE /\ LET sep == IF LineBreakDue THEN Sep \o Comment \o NL ELSE <<>>
                   omit == slips > 0 /\ R(1..12) = 1
               IN  \/ /\ ~LineBreakDue /\ Write(GoodRow)
                   \/ /\ LineBreakDue /\ ~omit /\ Write(sep \o GoodRow)
                   \/ /\ LineBreakDue /\ omit /\ Write(GoodRow)
            /\ row' = row + 1
            /\ phase' = (IF row' = W \/ (slips > 0 /\ R(1..40) = 1) THEN "tail" ELSE "lines")
    /\ Same

Trim(t) == IF t # <<>> /\ t[Len(t)] = LF THEN SubSeq(t, 1, Len(t) - 1) ELSE t
Tail1 ==
    /\ phase = "tail"
    /\ text' = TLCEval(Pick(<<text, Trim(text), Trim(Trim(text)), text \o NL, text \o <<SPACE, TAB>> \o NL \o Junk(text), text \o NL \o Junk(text), text \o Junk(text), text \o <<160, 8195>> \o NL \o Cells(W),
                              text \o RowOf(style.delim, Cells(W)), text \o <<OddChar(text)>>, text \o text>>))
    /\ phase' = "done" /\ UNCHANGED <<row, style, slips>>

Show == /\ phase = "done"
        /\ PrintT("GEN " \o ToJson(text))
        /\ phase' = "end" /\ UNCHANGED <<text, row, style, slips>>

Init == text = <<>> /\ row = 0 /\ style = <<>> /\ slips = 0 /\ phase = "start"
Next == Start \/ OneLine \/ WriteRow \/ Tail1 \/ Show
Spec == Init /\ [][Next]_vars
=============================================================================
