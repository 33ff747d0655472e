---------------------------- MODULE FormatTrace -----------------------------
(* Judges recorded parser calls, texts, byte conversions and (de)serialization *)
(* against Formats.tla (P11-P15).                                            *)
EXTENDS Formats, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 24
VARIABLE l
vars == <<l>>

If(cond, what) == IF cond THEN {} ELSE {what}

\* acceptance only: same grid, or an error of any kind
SameVerdict(o, outs) == \E x \in outs : IF x.r = "ok" THEN o = x ELSE o.r = "err"

\* What an error says about itself: its text names the numbers it holds and the invalid character, its position is
\* that of the cell. The index of a row is not given out as a number of cells found.
Digit10(c) == c \in 48..57
RECURSIVE RunFrom(_, _, _)
RunFrom(t, i, v) == IF i > Len(t) \/ ~Digit10(t[i]) THEN v ELSE RunFrom(t, i + 1, 10 * v + t[i] - 48)
Numbers(t) == {RunFrom(t, i, 0) : i \in {j \in 1..Len(t) : Digit10(t[j]) /\ (j = 1 \/ ~Digit10(t[j - 1]))}}
Found == <<102, 111, 117, 110, 100, 32>>        \* "found "
FoundNumbers(t) == {RunFrom(t, i + 6, 0) : i \in {j \in 1..(Len(t) - 6) : SubSeq(t, j, j + 5) = Found /\ Digit10(t[j + 6])}}
JError(e, p) ==
    IF e.o.r = "ok" THEN {}
    ELSE LET t == e.d.text
         IN  If(t # <<>>, p \o " error text")
             \cup (IF e.o.e \in {"InvalidEntry", "NotEnoughCells", "NotEnoughRows", "InvalidLineLength"}
                      \/ (e.o.e = "MissingCommentDelimiter" /\ e.k = "block")
                   THEN If(e.o.n \in Numbers(t), p \o " error text names the place") ELSE {})
             \cup If(e.o.e = "InvalidLineLength" => e.o.n \notin FoundNumbers(t), p \o " error text gives out the row as a number of cells")
             \cup (IF e.o.e = "InvalidEntry"
                   THEN If(e.d.pos = <<e.o.n \div W, e.o.n % W, (e.o.n \div (W * BW)) * BM + (e.o.n % W) \div BW>>, p \o " position of the invalid entry")
                        \cup If(\E i \in 1..Len(t) : t[i] = e.o.ch, p \o " error text names the character")
                   ELSE {})

JText(e) ==
    If(e.line = LineText(e.g), "P14 line text")
    \cup If(e.linedisp = LineText(e.g), "P14 Display of the line")
    \cup If(e.disp = LineText(e.g), "P14 Display of the sudoku")
    \cup If(e.dbg = <<34>> \o LineText(e.g) \o <<34>>, "P14 Debug of the line")
    \cup If(e.block = BlockText(e.g), "P14 block text")
    \cup If(e.bytes = e.g /\ e.arr = e.g, "P14 bytes")
    \cup If(e.fromline = Ok(e.g), "P14 line text read back")
    \cup If(e.fromblock = Ok(e.g), "P14 block text read back")
    \cup If(e.frombytes = Ok(e.g), "P14 bytes read back")

JOrd(e) ==
    LET c == Compare(LineText(e.a), LineText(e.b))
    IN  If(e.cmp = c, "P14 cmp")
        \cup If(e.pcmp = c, "P14 partial_cmp")
        \cup If(e.eq = (c = 0), "P14 eq")
        \cup If(e.hash = e.strhash, "P14 hash")

JBytes(e) ==
    LET want == IF Len(e.b) # W*W THEN Err("WrongLength", Len(e.b), 0)
                ELSE IF BytesValid(e.b) THEN Ok(e.b) ELSE Err("Content", 0, 0)
    IN  If(e.slice = want, "P14 from_bytes_slice")
        \cup If(e.tryslice = want, "P14 TryFrom slice")
        \cup (IF Len(e.b) = W*W THEN If(e.arr = want, "P14 from_bytes") \cup If(e.tryarr = want, "P14 TryFrom array") ELSE {})

BinPrefix == <<W*W, 0, 0, 0, 0, 0, 0, 0>>       \* bincode's length prefix
JSerde(e) ==
    If(e.json = JsonText(e.g), "P15 JSON text")
    \cup If(e.bin = BinPrefix \o e.g, "P15 binary form")
    \cup UNION {If(e.back[i] = Ok(e.g), "P15 round trip " \o e.names[i]) : i \in 1..Len(e.back)}

JDeBin(e) == LET want == IF BytesValid(e.b) THEN Ok(e.b) ELSE Err("any", 0, 0)
             IN  UNION {If(SameVerdict(e.o[i], {want}), "P15 binary input") : i \in 1..Len(e.o)}

Judge(e) ==
    CASE e.k = "line"  -> If(e.o \in LineOutcomes(e.s), "P11 line parser") \cup JError(e, "P11")
      [] e.k = "block" -> If(e.o \in BlockOutcomes(e.s), "P12 block parser") \cup JError(e, "P12")
      [] e.k = "perm"  -> If(e.o \in PermissiveOutcomes(e.s), "P13 permissive parser") \cup JError(e, "P13")
      [] e.k = "text"  -> JText(e)
      [] e.k = "ord"   -> JOrd(e)
      [] e.k = "bytes" -> JBytes(e)
      [] e.k = "serde" -> JSerde(e)
      [] e.k = "dejson" -> UNION {If(SameVerdict(e.o[i], LineOutcomes(e.s)), "P15 text input") : i \in 1..Len(e.o)}
      [] e.k = "debin" -> JDeBin(e)
      [] e.k = "deother" -> If(e.o.r = "err", "P15 other data accepted")
      [] e.k = "panic" -> {"panic in " \o e.op}
      [] e.k = "crash" -> {"no return from " \o e.op}
      [] OTHER -> Assert(FALSE, <<"TOOLERROR unknown event", e.k>>)

Consume(i) == LET bad == Judge(Trace[i]) IN bad = {} \/ PrintT("REJECT " \o ToString(i) \o " " \o ToString(bad))
Init == l \in 1..Min({Chains, Len(Trace)}) /\ Consume(l)
Next == l + Chains <= Len(Trace) /\ l' = l + Chains /\ Consume(l')
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").distinct = Len(Trace)
=============================================================================
