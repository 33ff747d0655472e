------------------------------ MODULE FormatMC ------------------------------
(* The parsers as character-reading machines, shaped like the                *)
(* implementation (one pass, first error wins), and the proof by exhaustion  *)
(* that on a tiny board they compute exactly the outcomes that Formats.tla   *)
(* declares, for every text that can be typed over a small alphabet.  A text *)
(* is extended as long as no parser has failed for good.                     *)
EXTENDS Formats

CONSTANTS Alphabet, MaxLen, MaxJunk

VARIABLES text,                 \* characters read so far
          blk,                  \* strict block parser
          lin,                  \* line parser
          per,                  \* permissive parser
          junk                  \* characters typed that do not matter to the strict parser any more
vars == <<text, blk, lin, per, junk>>

None == [r |-> "none"]

\* ---- strict block parser
\* line: index of the current line; row: rows completed; col: character column in the line; cells: cells read in this row
\* mode: "row" reading a row, "comment" skipping a comment, "sep" in a separator line, "after" behind the board,
\*       "err" failed;  fmt: "unknown", "bare", "dash", "delim" (separator kind not known yet), "plus"
BlkInit == [mode |-> "row", line |-> 0, row |-> 0, cells |-> 0, fmt |-> "unknown", cur |-> <<>>, grid |-> <<>>, err |-> None]
Fail(b, e) == [b EXCEPT !.mode = "err", !.err = e]

\* the separator text read so far can still become ...
CanSep(cur, plus) == LET n == W + BM - 1 IN \A k \in 1..Min({n, Len(cur)}) : cur[k] = SepText(plus)[k]
SepDone(cur, plus) == Len(cur) >= W + BM - 1 /\ CanSep(cur, plus)

IsSepLineNo(b, line) == b.fmt \in {"delim", "dash", "plus"} /\ line % (BW + 1) = BW

StartLine(b) ==
    LET line == b.line + 1
        c == [b EXCEPT !.line = line, !.cells = 0, !.cur = <<>>]
    IN  IF b.row = W THEN [c EXCEPT !.mode = "after"]
        ELSE IF IsSepLineNo(b, line) THEN [c EXCEPT !.mode = "sep"]
        ELSE [c EXCEPT !.mode = "row"]

\* a line terminator was read; the characters of the line are in b.cur
EndLine(b) ==
    CASE b.mode = "err" -> b
      [] b.mode = "row" ->
            IF b.cells # W THEN Fail(b, Err("InvalidLineLength", b.row, 0))
            ELSE StartLine([b EXCEPT !.row = b.row + 1])
      [] b.mode = "comment" -> StartLine([b EXCEPT !.row = b.row + 1])
      [] b.mode = "sep" ->
            IF b.fmt = "delim"
            THEN IF SepDone(b.cur, TRUE) THEN StartLine([b EXCEPT !.fmt = "plus"])
                 ELSE IF SepDone(b.cur, FALSE) THEN StartLine([b EXCEPT !.fmt = "dash"])
                 ELSE Fail(b, Err("IncorrectFieldDelimiter", 0, 0))
            ELSE IF SepDone(b.cur, b.fmt = "plus") THEN StartLine(b)
                 ELSE Fail(b, Err("IncorrectFieldDelimiter", 0, 0))
      [] b.mode = "after" ->
            IF \A k \in 1..Len(b.cur) : b.cur[k] \in WhiteSpace THEN [b EXCEPT !.mode = "done"]
            ELSE Fail(b, Err("TooManyRows", 0, 0))
      [] b.mode = "done" -> b

Char(b0, ch) ==
    LET b == [b0 EXCEPT !.cur = Append(@, ch)]
        col == Len(b0.cur)
    IN  CASE b.mode \in {"err", "comment", "sep", "after", "done"} -> b
          [] b.mode = "row" ->
               IF b.cells = W
               THEN IF ch \in {SPACE, TAB} THEN [b EXCEPT !.mode = "comment"]
                    ELSE IF CellChar(ch) THEN Fail(b, Err("InvalidLineLength", b.row, 0))
                    ELSE Fail(b, Err("MissingCommentDelimiter", b.row, 0))
               ELSE LET f == IF b.fmt = "unknown" /\ col = BW THEN (IF ch = BAR THEN "delim" ELSE "bare") ELSE b.fmt
                        c == [b EXCEPT !.fmt = f]
                    IN  IF col \in DelimCols /\ f \notin {"bare", "unknown"}
                        THEN IF ch = BAR THEN c ELSE Fail(c, Err("IncorrectFieldDelimiter", 0, 0))
                        ELSE IF CellChar(ch)
                             THEN [c EXCEPT !.cells = @ + 1, !.grid = Append(@, CellVal(ch))]
                             ELSE Fail(c, Err("InvalidEntry", b.row * W + b.cells, ch))

\* the input ends here; an unterminated last line still counts if it is not empty
BlkEnd(b) ==
    LET e == IF b.cur # <<>> THEN EndLine(b) ELSE b
    IN  IF e.mode = "err" THEN e.err
        ELSE IF e.row = W THEN Ok(e.grid)
        ELSE Err("NotEnoughRows", e.row, 0)

\* ---- line parser
LinInit == [cells |-> <<>>, mode |-> "cells", err |-> None]
LinChar(p, ch) ==
    CASE p.mode # "cells" -> p
      [] Len(p.cells) < W*W /\ CellChar(ch) -> [p EXCEPT !.cells = Append(@, CellVal(ch))]
      [] Len(p.cells) < W*W /\ ch \in {SPACE, TAB} -> [p EXCEPT !.mode = "err", !.err = Err("NotEnoughCells", Len(p.cells), 0)]
      [] Len(p.cells) < W*W -> [p EXCEPT !.mode = "err", !.err = Err("InvalidEntry", Len(p.cells), ch)]
      [] ch \in LineDelims -> [p EXCEPT !.mode = "done"]
      [] CellChar(ch) -> [p EXCEPT !.mode = "err", !.err = Err("TooManyCells", 0, 0)]
      [] OTHER -> [p EXCEPT !.mode = "err", !.err = Err("MissingCommentDelimiter", 0, 0)]
LinEnd(p) == IF p.mode = "err" THEN p.err
             ELSE IF Len(p.cells) = W*W THEN Ok(p.cells) ELSE Err("NotEnoughCells", Len(p.cells), 0)

\* ---- permissive parser
PerInit == [grid |-> <<>>, cur |-> <<>>, rows |-> 0]
PerChar(p, ch) ==
    IF p.rows = W THEN p
    ELSE IF ch = LF THEN [p EXCEPT !.cur = <<>>]
    ELSE IF Len(p.cur) < W /\ CellChar(ch)
         THEN LET c == Append(p.cur, CellVal(ch))
              IN  IF Len(c) = W THEN [grid |-> p.grid \o c, cur |-> c, rows |-> p.rows + 1] ELSE [p EXCEPT !.cur = c]
         ELSE p
PerEnd(p) == IF p.rows = W THEN Ok(p.grid) ELSE Err("NotEnoughRows", p.rows, 0)

-----------------------------------------------------------------------------
Init == text = <<>> /\ blk = BlkInit /\ lin = LinInit /\ per = PerInit /\ junk = 0

\* CR is not in the alphabet; CR LF is typed as one symbol
Type(ch) ==
    /\ text' = Append(text, ch)
    /\ blk' = IF ch = LF THEN EndLine(blk) ELSE Char(blk, ch)
    /\ lin' = LinChar(lin, ch)
    /\ per' = PerChar(per, ch)
TypeCrLf ==
    /\ text' = text \o <<CR, LF>>
    /\ blk' = EndLine(blk)
    /\ lin' = LinChar(LinChar(lin, CR), LF)
    /\ per' = PerChar(per, LF)

Settled == blk.mode \in {"err", "done"} /\ lin.mode # "cells"
Next == /\ ~Settled
        /\ Len(text) < MaxLen
        /\ junk <= MaxJunk
        /\ junk' = junk + (IF \/ blk.mode \in {"comment", "after", "done", "err"}
                              \/ blk.mode = "sep" /\ ~CanSep(blk.cur, TRUE) /\ ~CanSep(blk.cur, FALSE)
                           THEN 1 ELSE 0)
        /\ \/ \E ch \in Alphabet : Type(ch)
           \/ TypeCrLf
Spec == Init /\ [][Next]_vars

\* machine = declaration, for every text as if it ended here
BlockAgrees      == BlkEnd(blk) \in BlockOutcomes(text)
LineAgrees       == LinEnd(lin) \in LineOutcomes(text)
PermissiveAgrees == PerEnd(per) \in PermissiveOutcomes(text)

\* the texts of a grid mean that grid
GridsMC == [1..(W*W) -> 0..2]
ASSUME RoundTrip == W = 2 =>
    \A g \in GridsMC :
       /\ LineOutcomes(LineText(g)) = {Ok(g)}
       /\ PermissiveOutcomes(BlockText(g)) = {Ok(g)}
       /\ BlockOutcomes(SubSeq(BlockText(g), 2, Len(BlockText(g)))) # {Ok(g)}
ASSUME OrderKept == W = 2 => \A g, h \in {x \in GridsMC : x[1] = x[2]} : Compare(LineText(g), LineText(h)) = Compare(g, h)

AlphabetMC == {49, DOT, SPACE, 120, LF, BAR, MINUS, PLUS}
=============================================================================
