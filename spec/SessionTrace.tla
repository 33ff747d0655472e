---------------------------- MODULE SessionTrace ----------------------------
(* Judges recorded sessions with the strategy solver (P19-P21): a start      *)
(* position, a sequence of operations with their results, and a final solve. *)
(*   <<"ins", cell, digit, ok>>          <<"gs", digits, candidates>>        *)
(*   <<"cs", cell, digit, candidates>>   <<"ts", grid>>   <<"sv", solved>>   *)
(*   <<"cl">> go on with a clone         <<"rb">> go on with a rebuilt one   *)
(*   <<"keep">> set a clone aside        <<"kept", digits, candidates>>      *)
(*   <<"pr", lines>>                                                         *)
EXTENDS StrategyJudge, Session, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chains == 24
VARIABLE l
vars == <<l>>

Shows(p, digits, cands) ==
    /\ digits = p.g
    /\ \A c \in Cells : SetOf(cands[c]) = p.c[c] /\ Len(cands[c]) = Cardinality(p.c[c])

\* the printed lines: the table and a final line break
Printed(p) == Table(p) \o <<<<>>>>
\* shown: the digits that can be read in each cell of the table (by the recorder; judged by printing them again)
PrintOk(p, odd, lines, shown) ==
    LET q == TLCEval(NakedClosure(p)) IN
    IF ~odd /\ ~Contradictory(q) THEN lines = Printed(q)
    ELSE LET x == [g |-> [c \in Cells |-> 0], c |-> [c \in Cells |-> SetOf(shown[c])]] IN
         \* always an aligned table
         /\ Len(shown) = N * N /\ lines = Printed(x)
         \* which naked singles of a contradictory position are filled in depends on the order of the entries,
         \* but no entry is lost
         /\ odd \/ Conflict(p.g) \/ \A c \in Cells : p.g[c] # 0 => x.c[c] = {p.g[c]}

\* st: position, position set aside, complaints, was something inserted that is no candidate
Step(prop, st, o) ==
    LET p == st.p
        flag(q, cond, what) == IF prop = q /\ ~cond THEN st.bad \cup {q \o " " \o what} ELSE st.bad
    IN  TLCEval(CASE
             o[1] = "ins"  -> [st EXCEPT !.p = AfterInsert(p, o[2], o[3]), !.odd = @ \/ (p.g[o[2]] = 0 /\ o[3] \notin p.c[o[2]]), !.bad = flag("P20", o[4] \in InsertOks(p, o[2], o[3]), "result of insert_candidate")]
          [] o[1] = "gs"   -> [st EXCEPT !.bad = flag("P19", Shows(p, o[2], o[3]), "grid_state") \cup flag("P20", Shows(p, o[2], o[3]), "position reached") \cup flag("P21", Shows(p, o[2], o[3]), "solver changed by printing")]
          [] o[1] = "cs"   -> [st EXCEPT !.bad = flag("P19", o[3] = p.g[o[2]] /\ SetOf(o[4]) = p.c[o[2]], "cell_state")]
          [] o[1] = "ts"   -> [st EXCEPT !.bad = flag("P19", o[2] = p.g, "to_sudoku") \cup flag("P20", o[2] = p.g, "grid reached")]
          [] o[1] = "sv"   -> [st EXCEPT !.bad = flag("P19", o[2] = Solved(p.g), "is_solved")]
          [] o[1] = "pr"   -> [st EXCEPT !.bad = flag("P21", PrintOk(p, st.odd, o[2], o[3]), "printed table")]
          [] o[1] = "keep" -> [st EXCEPT !.k = p]
          [] o[1] = "kept" -> [st EXCEPT !.bad = flag("P19", Shows(st.k, o[2], o[3]), "clone set aside changed") \cup flag("P20", Shows(st.k, o[2], o[3]), "clone set aside changed")]
          [] o[1] \in {"cl", "rb"} -> st
          [] OTHER -> Assert(FALSE, <<"TOOLERROR unknown operation", o>>))

\* runs are compared up to the order of naked singles entered one after the other
RECURSIVE Grouped(_, _, _)
Grouped(ded, i, acc) ==
    IF i > Len(ded) THEN acc
    ELSE LET d == ded[i]
             ns == d[1] = "NS"
             join == ns /\ acc # <<>> /\ acc[Len(acc)][1]
         IN  Grouped(ded, i + 1, TLCEval(IF join THEN [acc EXCEPT ![Len(acc)] = <<TRUE, @[2] \cup {d}>>] ELSE Append(acc, <<ns, {d}>>)))
SameRun(a, b) == a.ok = b.ok /\ a.out = b.out /\ Grouped(a.ded, 1, <<>>) = Grouped(b.ded, 1, <<>>)

JSession(e) ==
    LET st == FoldLeft(LAMBDA s, o : Step(e.p, s, o), [p |-> TLCEval(Start(e)), k |-> TLCEval(Start(e)), bad |-> {}, odd |-> FALSE], e.ops)
        p == st.p
        \* nothing that is no candidate was inserted or entered, and no contradiction shows up when solving
        end(r) == FoldLeft(LAMBDA x, d : TLCEval([p |-> After(x.p, d), odd |-> x.odd \/ (IsEntry(d) /\ d[4] \notin x.p.c[d[3]])]),
                           [p |-> p, odd |-> FALSE], r.ded)
        fine(r) == LET x == end(r) IN ~x.odd /\ ~Contradictory(x.p)
        regular == ~st.odd /\ ~Contradictory(p) /\ fine(e.run) /\ fine(e.again)
    IN  st.bad
        \* run: the session's solver; bare: one that was never looked at; again: one rebuilt from the cell states
        \cup (IF e.p = "P19" THEN If(e.run = e.bare, "P19 looking changed the outcome of solving") ELSE {})
        \cup (IF e.p # "P20" THEN {}
              ELSE If(regular => SameRun(e.run, e.again), "P20 solving after insertions differs from solving the position reached")
                   \cup {"P20 solves another position: " \o x : x \in IF st.odd \/ Contradictory(p) THEN {} ELSE JustifiedFrom(p, [strats |-> e.strats, ded |-> e.run.ded])}
                   \cup If(Extends(e.run.out, p.g), "P20 solving dropped an entry"))

\* CellState: the texts for the widths 0, 1, 2, ...
JCell(e) ==
    LET p == [g |-> [c \in Cells |-> e.d], c |-> [c \in Cells |-> SetOf(e.cands)]] IN
    If(\A i \in 1..Len(e.texts) : e.texts[i] = Pad(CellText(p, 1), i - 1), "P21 text of a cell state")
    \cup If(e.plain = CellText(p, 1), "P21 text of a cell state without width")

Judge(e) ==
    CASE e.k = "session" -> JSession(e)
      [] e.k = "cell"    -> JCell(e)
      [] e.k = "panic"   -> {"panic in " \o e.op}
      [] e.k = "crash"   -> {"no return from " \o e.op}
      [] OTHER -> Assert(FALSE, <<"TOOLERROR unknown event", e.k>>)

Consume(i) == LET bad == Judge(Trace[i]) IN bad = {} \/ PrintT("REJECT " \o ToString(i) \o " " \o ToString(bad))
Init == l \in 1..Min2(Chains, Len(Trace)) /\ Consume(l)
Next == l + Chains <= Len(Trace) /\ l' = l + Chains /\ Consume(l')
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").distinct = Len(Trace)
=============================================================================
